// Index specifier wrappers and container configurations.
#ifndef SIM_CONFIG_HPP
#define SIM_CONFIG_HPP
#include "core.hpp"
#ifdef SIM_SER
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#endif
#ifdef SIM_SAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#include <boost/multi_index/safe_mode_errors.hpp>
namespace sim{
struct SafeError{ int code; };
[[noreturn]] void safe_error(int code);
}
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) if(!(expr)){ ::sim::safe_error((int)(error_code)); }
#endif
#ifdef SIM_INV
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
namespace sim{
extern u32 g_invSeen; extern bool g_invExpected; void invariant_failed();
struct InvScope{ Disarm d; InvScope(){ ++g_invSeen; } };
}
#define BOOST_MULTI_INDEX_INVARIANT_ASSERT(expr) do{ ::sim::InvScope inv_scope_; (void)inv_scope_; if(!(expr)) ::sim::invariant_failed(); }while(0)
#endif
#ifndef SIM_SER
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#endif
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/tuple/tuple.hpp>
#include <tuple>

namespace sim{
namespace bmi=boost::multi_index;

enum Kind{K_ORD,K_RNK,K_HASH,K_SEQ,K_RND};
inline constexpr bool isOrd(Kind k){ return k==K_ORD||k==K_RNK; }
inline constexpr bool isKey(Kind k){ return isOrd(k)||k==K_HASH; }
inline constexpr bool isPos(Kind k){ return k==K_SEQ||k==K_RND; }

struct OrdArgs{
  static Cmp cmp(const Comp& c){ return Cmp(c.dir,c.div); }
};
#define SIM_ORD(NAME,SPEC,KIND,UNIQ)                                              \
template<int F> struct NAME{                                                      \
  static constexpr Kind kind=KIND; static constexpr bool uniq=UNIQ; static constexpr int nc=1; \
  typedef bmi::SPEC<bmi::tag<NAME>,Key<F>,Cmp> type;                                             \
  static IdxState def(){ return IdxState{{Comp{F,1,1}},0}; }                      \
  template<class Args> static Args args(const IdxState& s,u32){                   \
    return Args(Key<F>(s.c[0].f),Cmp(s.c[0].dir,s.c[0].div)); }                   \
  static Cmp cmpOf(const IdxState& s){ return Cmp(s.c[0].dir,s.c[0].div); }       \
};
SIM_ORD(OU,ordered_unique,K_ORD,true)
SIM_ORD(ON,ordered_non_unique,K_ORD,false)
SIM_ORD(RU,ranked_unique,K_RNK,true)
SIM_ORD(RN,ranked_non_unique,K_RNK,false)
#undef SIM_ORD
#define SIM_ORD2(NAME,SPEC,KIND,UNIQ)                                             \
template<int F,int H> struct NAME{                                                \
  static constexpr Kind kind=KIND; static constexpr bool uniq=UNIQ; static constexpr int nc=2; \
  typedef bmi::composite_key<Elem,Key<F>,Key<H>> key;                             \
  typedef bmi::composite_key_compare<Cmp,Cmp> cmp;                                \
  typedef bmi::SPEC<bmi::tag<NAME>,key,cmp> type;                                                \
  static IdxState def(){ return IdxState{{Comp{F,1,1},Comp{H,1,1}},0}; }          \
  template<class Args> static Args args(const IdxState& s,u32){                   \
    return Args(key(Key<F>(s.c[0].f),Key<H>(s.c[1].f)),                           \
      cmp(Cmp(s.c[0].dir,s.c[0].div),Cmp(s.c[1].dir,s.c[1].div))); }              \
};
SIM_ORD2(OUC,ordered_unique,K_ORD,true)
SIM_ORD2(ONC,ordered_non_unique,K_ORD,false)
SIM_ORD2(RNC,ranked_non_unique,K_RNK,false)
#undef SIM_ORD2
#define SIM_ORD3(NAME,SPEC,KIND,UNIQ)                                             \
template<int F,int H,int G> struct NAME{                                          \
  static constexpr Kind kind=KIND; static constexpr bool uniq=UNIQ; static constexpr int nc=3; \
  typedef bmi::composite_key<Elem,Key<F>,Key<H>,Key<G>> key;                      \
  typedef bmi::composite_key_compare<Cmp,Cmp,Cmp> cmp;                            \
  typedef bmi::SPEC<bmi::tag<NAME>,key,cmp> type;                                 \
  static IdxState def(){ return IdxState{{Comp{F,1,1},Comp{H,1,1},Comp{G,1,1}},0}; } \
  template<class Args> static Args args(const IdxState& s,u32){                   \
    return Args(key(Key<F>(s.c[0].f),Key<H>(s.c[1].f),Key<G>(s.c[2].f)),          \
      cmp(Cmp(s.c[0].dir,s.c[0].div),Cmp(s.c[1].dir,s.c[1].div),Cmp(s.c[2].dir,s.c[2].div))); } \
};
SIM_ORD3(ONC3,ordered_non_unique,K_ORD,false)
#undef SIM_ORD3
#define SIM_HASH(NAME,SPEC,UNIQ)                                                  \
template<int F> struct NAME{                                                      \
  static constexpr Kind kind=K_HASH; static constexpr bool uniq=UNIQ; static constexpr int nc=1; \
  typedef bmi::SPEC<bmi::tag<NAME>,Key<F>,Hash,Eq> type;                                         \
  static IdxState def(){ return IdxState{{Comp{F,1,1}},0}; }                      \
  template<class Args> static Args args(const IdxState& s,u32 n){                 \
    return Args(n,Key<F>(s.c[0].f),Hash(s.hmode,s.c[0].div),Eq(s.c[0].div)); }    \
};
SIM_HASH(HU,hashed_unique,true)
SIM_HASH(HN,hashed_non_unique,false)
#undef SIM_HASH
#define SIM_HASH2(NAME,SPEC,UNIQ)                                                 \
template<int F,int H> struct NAME{                                                \
  static constexpr Kind kind=K_HASH; static constexpr bool uniq=UNIQ; static constexpr int nc=2; \
  typedef bmi::composite_key<Elem,Key<F>,Key<H>> key;                             \
  typedef bmi::composite_key_hash<Hash,Hash> hash;                                \
  typedef bmi::composite_key_equal_to<Eq,Eq> eq;                                  \
  typedef bmi::SPEC<bmi::tag<NAME>,key,hash,eq> type;                                            \
  static IdxState def(){ return IdxState{{Comp{F,1,1},Comp{H,1,1}},0}; }          \
  template<class Args> static Args args(const IdxState& s,u32 n){                 \
    return Args(n,key(Key<F>(s.c[0].f),Key<H>(s.c[1].f)),                         \
      hash(Hash(s.hmode,s.c[0].div),Hash(s.hmode,s.c[1].div)),                    \
      eq(Eq(s.c[0].div),Eq(s.c[1].div))); }                                       \
};
SIM_HASH2(HUC,hashed_unique,true)
SIM_HASH2(HNC,hashed_non_unique,false)
#undef SIM_HASH2
#define SIM_HASH3(NAME,SPEC,UNIQ)                                                 \
template<int F,int H,int G> struct NAME{                                          \
  static constexpr Kind kind=K_HASH; static constexpr bool uniq=UNIQ; static constexpr int nc=3; \
  typedef bmi::composite_key<Elem,Key<F>,Key<H>,Key<G>> key;                      \
  typedef bmi::composite_key_hash<Hash,Hash,Hash> hash;                           \
  typedef bmi::composite_key_equal_to<Eq,Eq,Eq> eq;                               \
  typedef bmi::SPEC<bmi::tag<NAME>,key,hash,eq> type;                             \
  static IdxState def(){ return IdxState{{Comp{F,1,1},Comp{H,1,1},Comp{G,1,1}},0}; } \
  template<class Args> static Args args(const IdxState& s,u32 n){                 \
    return Args(n,key(Key<F>(s.c[0].f),Key<H>(s.c[1].f),Key<G>(s.c[2].f)),        \
      hash(Hash(s.hmode,s.c[0].div),Hash(s.hmode,s.c[1].div),Hash(s.hmode,s.c[2].div)), \
      eq(Eq(s.c[0].div),Eq(s.c[1].div),Eq(s.c[2].div))); }                        \
};
SIM_HASH3(HUC3,hashed_unique,true)
#undef SIM_HASH3
struct SQ{
  static constexpr Kind kind=K_SEQ; static constexpr bool uniq=false; static constexpr int nc=0;
  typedef bmi::sequenced<bmi::tag<SQ>> type;
  static IdxState def(){ return IdxState(); }
  template<class Args> static Args args(const IdxState&,u32){ return Args(); }
};
struct RA{
  static constexpr Kind kind=K_RND; static constexpr bool uniq=false; static constexpr int nc=0;
  typedef bmi::random_access<bmi::tag<RA>> type;
  static IdxState def(){ return IdxState(); }
  template<class Args> static Args args(const IdxState&,u32){ return Args(); }
};

template<int POL,class... S> struct Cfg{
  static constexpr int N=sizeof...(S);
  static constexpr int pol=POL;
  typedef SimAlloc<Elem,POL> alloc;
  typedef bmi::multi_index_container<Elem,bmi::indexed_by<typename S::type...>,alloc> C;
  static constexpr Kind kinds[N]={S::kind...};
  static constexpr bool uniqs[N]={S::uniq...};
  static constexpr int ncs[N]={S::nc...};
  template<int I> using spec=typename std::tuple_element<I,std::tuple<S...>>::type;
  static std::vector<IdxState> def(){ return {S::def()...}; }
  template<int I> static auto args_(const std::vector<IdxState>& st,u32 nb){
    if constexpr(I==N){ (void)st; (void)nb; return boost::tuples::null_type(); }
    else{
      typedef typename C::template nth_index<I>::type::ctor_args A;
      auto rest=args_<I+1>(st,nb); typedef decltype(rest) R;
      return boost::tuples::cons<A,R>(spec<I>::template args<A>(st[I],nb),rest);
    }
  }
  static typename C::ctor_args_list args(const std::vector<IdxState>& st,u32 nb){ return typename C::ctor_args_list(args_<0>(st,nb)); }
};
} // namespace sim
#endif
