// Thread simulation: reader threads on shared containers (and, per thread,
// unrestricted use of private containers) under a seeded scheduler.
#include "mt_rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cinttypes>
#include <string>
#include <vector>
#include <tuple>
#include <utility>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#ifdef MT_SAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
namespace mt{ struct SafeError{ int code; }; [[noreturn]] void safe_error(int c); }
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) if(!(expr)){ ::mt::safe_error((int)(error_code)); }
#endif
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/tuple/tuple.hpp>
#include <type_traits>

namespace mt{
namespace bmi=boost::multi_index;
struct Fault{};
#ifdef MT_SAFE
void safe_error(int c){ throw SafeError{c}; }
#endif
static inline void pt(){ if(tick()) throw Fault(); }
struct E{
  int a,b; u32 id;
  E(int a_,int b_,u32 i):a(a_),b(b_),id(i){}
  E(const E& x):a(x.a),b(x.b),id(x.id){ pt(); }
  E(E&& x)noexcept:a(x.a),b(x.b),id(x.id){}
  E& operator=(const E& x){ a=x.a; b=x.b; id=x.id; return *this; }
};
inline bool operator==(const E& x,const E& y){ pt(); return x.a==y.a&&x.b==y.b&&x.id==y.id; }
inline bool operator<(const E& x,const E& y){ pt(); return x.a!=y.a?x.a<y.a:x.b!=y.b?x.b<y.b:x.id<y.id; }
struct Lt{ template<class T> bool operator()(const T& x,const T& y)const{ pt(); return x<y; } };
struct Eq{ template<class T> bool operator()(const T& x,const T& y)const{ pt(); return x==y; } };
static u32 g_hmode=0;
struct Hs{ u32 m; Hs():m(g_hmode){} std::size_t operator()(int x)const{ pt(); return m==0?(std::size_t)x:m==1?(std::size_t)(x%3):(std::size_t)x*0x9E3779B97F4A7C15ull; } };
typedef bmi::member<E,int,&E::a> KA; typedef bmi::member<E,int,&E::b> KB;
typedef bmi::composite_key<E,KA,KB> KC; typedef bmi::composite_key_compare<Lt,Lt> CC; typedef bmi::composite_key_hash<Hs,Hs> CH; typedef bmi::composite_key_equal_to<Eq,Eq> CE;
struct T0{}; struct T1{}; struct T2{};
enum Kind{K_ORD,K_RNK,K_HASH,K_SEQ,K_RND};
#if CFG==0
typedef bmi::multi_index_container<E,bmi::indexed_by<bmi::ordered_unique<bmi::tag<T0>,KC,CC>,bmi::sequenced<bmi::tag<T1>>,bmi::hashed_non_unique<bmi::tag<T2>,KB,Hs,Eq>>> C;
static constexpr Kind kinds[3]={K_ORD,K_SEQ,K_HASH}; static constexpr int keyOf[3]={2,-1,1};
#elif CFG==1
typedef bmi::multi_index_container<E,bmi::indexed_by<bmi::ranked_non_unique<bmi::tag<T0>,KA,Lt>,bmi::random_access<bmi::tag<T1>>,bmi::hashed_unique<bmi::tag<T2>,KC,CH,CE>>> C;
static constexpr Kind kinds[3]={K_RNK,K_RND,K_HASH}; static constexpr int keyOf[3]={0,-1,2};
#elif CFG==2
typedef bmi::multi_index_container<E,bmi::indexed_by<bmi::hashed_non_unique<bmi::tag<T0>,KA,Hs,Eq>,bmi::ordered_non_unique<bmi::tag<T1>,KB,Lt>,bmi::ranked_unique<bmi::tag<T2>,KC,CC>>> C;
static constexpr Kind kinds[3]={K_HASH,K_ORD,K_RNK}; static constexpr int keyOf[3]={0,1,2};
#else
typedef bmi::multi_index_container<E,bmi::indexed_by<bmi::random_access<bmi::tag<T0>>,bmi::sequenced<bmi::tag<T1>>,bmi::ordered_non_unique<bmi::tag<T2>,KA,Lt>>> C;
static constexpr Kind kinds[3]={K_RND,K_SEQ,K_ORD}; static constexpr int keyOf[3]={-1,-1,0};
#endif
static constexpr int N=3;
static constexpr bool isKey(Kind k){ return k==K_ORD||k==K_RNK||k==K_HASH; }
template<int I> using Ix=typename bmi::nth_index<C,I>::type;
template<int I> using It=typename Ix<I>::iterator;

#define OPS(X) X(traverse) X(backward) X(find) X(bounds) X(rank) X(position) X(bucket) X(take) X(drop) X(assign) X(use) X(project) X(compare) X(copy) X(info) X(iter_to) X(ends) X(own_insert) X(own_erase) X(own_modify) X(own_merge) X(own_clear) X(own_sort) X(own_extract) X(own_take) X(own_list) X(own_update) X(own_bulk) X(own_move) X(own_read)
enum OpCode{
#define X(n) R_##n,
OPS(X)
#undef X
R_N };
static const char* const op_name[R_N+1]={
#define X(n) #n,
OPS(X)
#undef X
0};
struct Op{ u32 t,code,a[5],fn; };
struct Knobs{ u32 n,dom,hmode,threads,hist,afterSeed; };

static Op* g_ops=nullptr; static u32 g_nops=0; static u64* g_res=nullptr; static u64* g_want=nullptr; 
static std::string g_where="setup"; static u64 g_run=0; static u64 g_log=0;
static u64 st_runs=0,st_ops=0,st_threw=0,st_faulted=0,st_nontrivial=0,st_opcount[R_N+1]={0},st_probe[64]={0};
static const char* g_out=nullptr; static void writeStats();

struct Rng{ u64 s; u64 next(){ u64 z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); } u32 below(u32 n){ return n?(u32)(next()%n):0; } bool chance(u32 a,u32 b){ return below(b)<a; } };
static u64 mix(u64 a,u64 b){ Rng r{a*0x2545F4914F6CDD1Dull+b}; r.next(); return r.next(); }

// shared containers
static C *sc=nullptr,*sd=nullptr;
template<int I> struct Held{ It<I> it; u32 id; };      // id 0: end()
struct Ctx{
  std::tuple<std::vector<Held<0>>,std::vector<Held<1>>,std::vector<Held<2>>> pool;    // iterators into sc
  std::tuple<std::vector<Held<0>>,std::vector<Held<1>>,std::vector<Held<2>>> own;     // iterators into p
  C p,q; u32 nextId;
  explicit Ctx(u32 t):nextId(100000*(t+1)){}
};
struct D{ u64 h=1469598103934665603ull; void operator()(u64 v){ h=(h^v)*0x100000001B3ull; h^=h>>29; } };
[[noreturn]] static void bad(const char* f,const char* what){ mt_fail("wrong-result","%s: %s",f,what); }

template<int I> static auto keyArg(u32 a,u32 b,u32 dom){ if constexpr(keyOf[I]==2) return boost::make_tuple((int)(a%dom),(int)(b%dom)); else return (int)(a%dom); }
template<class IX> static u32 idAt(const IX& ix,const typename IX::const_iterator& i){ return i==ix.end()?0u:i->id; }
template<int I,class IX> static typename IX::iterator nth(IX& ix,u32 k){ auto i=ix.begin(); while(k--) ++i; return i; }
static u32 g_dom=4;

template<int I,class CT> static u64 readOp(const Op& o,CT& c,Ctx& x){
  D d; constexpr Kind k=kinds[I]; auto& ix=c.template get<I>(); typedef typename std::remove_reference<decltype(ix)>::type IX; auto& pool=std::get<I>(x.pool);
  std::size_t n=ix.size();
  switch(o.code){
    case R_traverse: { u32 lim=o.a[1]%3?1000:o.a[2]%8; for(auto i=ix.begin(),e=ix.end();i!=e&&lim--;++i) d(i->id); } break;
    case R_backward: if constexpr(k!=K_HASH){ if(o.a[1]&1){ for(auto i=ix.rbegin(),e=ix.rend();i!=e;++i) d(i->id); } else { auto i=ix.end(),b=ix.begin(); while(i!=b){ --i; d(i->id); } } } else for(auto i=ix.cbegin(),e=ix.cend();i!=e;i++) d((*i).id); break;
    case R_find: if constexpr(isKey(k)){ auto key=keyArg<I>(o.a[1],o.a[2],g_dom); auto i=ix.find(key); d(i==ix.end()?0:i->id); d(ix.count(key)); d(ix.contains(key)); } else { d(n); if(n){ d(ix.front().id); d(ix.back().id); } } break;
    case R_bounds: if constexpr(isKey(k)){
        auto key=keyArg<I>(o.a[1],o.a[2],g_dom); auto r=ix.equal_range(key); for(auto i=r.first;i!=r.second;++i) d(i->id); 
        if constexpr(k!=K_HASH){ d(idAt(ix,ix.lower_bound(key))); d(idAt(ix,ix.upper_bound(key))); if constexpr(keyOf[I]!=2){ int lo=(int)(o.a[1]%g_dom),hi=lo+(int)(o.a[3]%4); auto q=ix.range([lo](int v){ return v>=lo; },[hi](int v){ return v<=hi; }); for(auto i=q.first;i!=q.second;++i) d(i->id); auto q2=ix.range(bmi::unbounded,[hi](int v){ return v<=hi; }); for(auto i=q2.first;i!=q2.second;++i) d(i->id); } }
      } else { for(auto i=ix.begin();i!=ix.end();i++) d(i->id); } break;
    case R_rank: if constexpr(k==K_RNK){ u32 p=o.a[1]%(u32)(n+1); auto i=ix.nth(p); d(idAt(ix,i)); d(ix.rank(i)); auto key=keyArg<I>(o.a[2],o.a[3],g_dom); d(ix.find_rank(key)); d(ix.lower_bound_rank(key)); d(ix.upper_bound_rank(key)); auto r=ix.equal_range_rank(key); d(r.first*1000+r.second); } else d(c.size()); break;
    case R_position: if constexpr(k==K_RND){ if(n){ u32 p=o.a[1]%(u32)n; d(ix[p].id); d(ix.at(p).id); auto i=ix.begin()+p; d(i->id); d(ix.end()-i); i+=(std::ptrdiff_t)(n-p); d(i==ix.end()); d(ix.begin()<i); d((i-1)->id); } try{ ix.at(n+o.a[2]%3); d(7); }catch(std::out_of_range&){ d(8); } d(ix.capacity()>=n); }
        else if constexpr(k==K_SEQ){ if(n){ d(ix.front().id); d(ix.back().id); } } else { d(n); d(ix.empty()); } break;
    case R_bucket: if constexpr(k==K_HASH){ d(ix.bucket_count()); d((u64)(ix.load_factor()*1000)); d((u64)(ix.max_load_factor()*1000)); std::size_t tot=0; for(std::size_t b=0;b<ix.bucket_count();++b){ tot+=ix.bucket_size(b); for(auto i=ix.begin(b),e=ix.end(b);i!=e;++i) d(i->id); } d(tot); if constexpr(keyOf[I]!=2){ int kk=(int)(o.a[1]%g_dom); d(ix.bucket(kk)); } } else d(ix.max_size()>0); break;
    case R_take: { u32 p=o.a[1]%(u32)(n+1); auto i=p<n?nth<I>(ix,p):ix.end(); u32 id=p<n?i->id:0; if(pool.size()<12) pool.push_back(Held<I>{i,id}); else pool[o.a[2]%pool.size()]=Held<I>{i,id}; d(id); } break;
    case R_drop: if(pool.size()){ pool.erase(pool.begin()+o.a[1]%pool.size()); } d(pool.size()); break;
    case R_assign: if(pool.size()>1){ auto& u=pool[o.a[1]%pool.size()]; auto& v=pool[o.a[2]%pool.size()]; switch(o.a[3]%4){ case 0: u=v; break; case 1: std::swap(u.it,v.it); std::swap(u.id,v.id); break; case 2: { It<I> z; z=v.it; It<I> y(z); u.it=y; u.id=v.id; } break; default: u.it=u.it; { It<I> z(std::move(v.it)); v.it=z; } } d(u.id); d(v.id); } break;
    case R_use: for(auto& u:pool){ if(u.id){ d(u.it->id); if(u.it->id!=u.id) bad("use","a held iterator refers to another element"); } d(u.it==ix.end()); if(u.id){ It<I> z=u.it; ++z; d(idAt(ix,z)); if constexpr(k!=K_HASH){ --z; d(z==u.it); } } } break;
    case R_project: if(pool.size()){ auto& u=pool[o.a[1]%pool.size()]; constexpr int J=(I+1)%N; auto j=c.template project<J>(u.it); d(j==c.template get<J>().end()?0:j->id); auto i=c.template project<I>(j); d(i==u.it); auto f=bmi::project<J>(c,u.it); d(f==j); } else { constexpr int J=(I+2)%N; auto j=c.template project<J>(ix.begin()); d(j==c.template get<J>().end()?0:j->id); } break;
    case R_compare: { auto& jx=const_cast<const C&>(*sd).template get<I>(); auto& cx=const_cast<const IX&>(ix); if constexpr(k!=K_HASH){ d(cx==jx); d(cx<jx); d(cx>=jx); d(jx!=cx); } else { d(cx==jx); d(jx==cx); } if(o.a[1]&1) d(const_cast<const C&>(c)==const_cast<const C&>(*sd)); } break;
    case R_copy: { C z(const_cast<const C&>(c)); d(z.size()); auto& zx=z.template get<I>(); for(auto i=zx.begin();i!=zx.end();++i) d(i->id); if(o.a[1]&1){ C y; y=c; d(y==z); } if(z.size()&&(o.a[2]&1)){ zx.erase(zx.begin()); d(z.size()); } } break;
    case R_info: d(c.size()); d(c.empty()); (void)c.get_allocator(); if constexpr(k==K_ORD||k==K_RNK){ (void)ix.key_comp(); (void)ix.value_comp(); (void)ix.key_extractor(); } if constexpr(k==K_HASH){ (void)ix.hash_function(); (void)ix.key_eq(); } d(c.max_size()>0); d(ix.size()); { auto& t0=bmi::get<T0>(c); auto& t1=bmi::get<T1>(c); auto& t2=bmi::get<T2>(c); d(t0.size()+t1.size()+t2.size()); } break;
    case R_iter_to: if(n){ auto i=nth<I>(ix,o.a[1]%(u32)n); auto j=ix.iterator_to(*i); d(i==j); d(j->id); } break;
    case R_ends: { for(u32 z=0;z<1+o.a[1]%4;++z){ auto a=ix.begin(),b=ix.end(); d(a==b); auto c2=ix.cbegin(),d2=ix.cend(); d(c2==a&&d2==b); } } break;
    default: break;
  }
  return d.h;
}
template<int I> static void pushOwn(Ctx& x,It<I> i){ auto& v=std::get<I>(x.own); u32 id=i==x.p.get<I>().end()?0:i->id; if(v.size()<10) v.push_back(Held<I>{i,id}); else v[id%v.size()]=Held<I>{i,id}; }
// after elements of p went away, drop our iterators to them (ids still in p are checked)
static void cleanOwn(Ctx& x,D& d){
  auto f=[&](auto II){ constexpr int I=decltype(II)::value; auto& v=std::get<I>(x.own); auto& ix=x.p.template get<I>(); std::vector<Held<I>> w; for(auto& h:v){ bool live=h.id==0; if(!live) for(auto& e:ix) if(e.id==h.id) live=true; if(live){
#ifdef MT_SAFE
        if(h.id&&h.it->id!=h.id) bad("own","a held iterator of a private container refers to another element");
#endif
        w.push_back(h); }
#ifdef MT_SAFE
      else { bool rep=false; try{ d(h.it->id); }catch(SafeError& e){ rep=true; } if(!rep){ bool inq=false; for(auto& e:x.q.template get<I>()) if(e.id==h.id) inq=true; if(!inq) bad("own","a stale iterator of a private container went unreported"); } }
#endif
    } v.swap(w); d(v.size()); };
  f(std::integral_constant<int,0>()); f(std::integral_constant<int,1>()); f(std::integral_constant<int,2>());
}
template<int I> static void insertInto(C& c,const E& e){ auto& ix=c.get<I>(); if constexpr(isKey(kinds[I])) ix.insert(e); else ix.push_back(e); }
template<int I,class IX> static u64 readOwn(IX& ix,const Op& o){
  D d; constexpr Kind k=kinds[I]; for(auto& e:ix) d(e.id);
  if constexpr(isKey(k)){ auto key=keyArg<I>(o.a[1],o.a[2],g_dom); d(ix.count(key)); d(idAt(ix,ix.find(key))); auto r=ix.equal_range(key); for(auto i=r.first;i!=r.second;++i) d(i->id); }
  if constexpr(k==K_RNK) for(auto i=ix.begin();i!=ix.end();++i) d(ix.rank(i));
  if constexpr(k==K_RND) for(std::size_t i=0;i<ix.size();++i) d(ix[i].id);
  return d.h;
}
template<int I> static u64 ownOp(const Op& o,Ctx& x){
  D d; constexpr Kind k=kinds[I]; auto& ix=x.p.get<I>(); auto& jx=x.q.get<I>(); std::size_t n=ix.size();
  try{
  switch(o.code){
    case R_own_insert: for(u32 z=0;z<1+o.a[1]%3;++z){ E e((int)((o.a[2]+z)%g_dom),(int)((o.a[3]+z)%g_dom),x.nextId++); if(o.a[4]&1) insertInto<I>(x.p,e); else insertInto<I>(x.q,e); } d(x.p.size()); d(x.q.size()); break;
    case R_own_erase: if(n){ auto i=nth<I>(ix,o.a[1]%(u32)n); ix.erase(i); } d(ix.size()); break;
    case R_own_modify: if(n){ auto i=nth<I>(ix,o.a[1]%(u32)n); d(ix.modify(i,[&](E& e){ e.a=(int)(o.a[2]%g_dom); e.b=(int)(o.a[3]%g_dom); })); } break;
    case R_own_merge: if constexpr(isKey(k)){ if(o.a[1]&1) ix.merge(jx); else if(jx.size()) jx.merge(ix); } else { if(o.a[1]&1) ix.splice(ix.end(),jx); else jx.splice(jx.begin(),ix); } d(ix.size()); d(jx.size()); break;
    case R_own_clear: if(o.a[1]%3==0) x.p.clear(); else if(o.a[1]%3==1){
#ifndef MT_SAFE
        x.p.swap(x.q);
#endif
      } else { x.q=*sc; for(auto& e:x.q.get<0>()) const_cast<E&>(e).id=x.nextId++; } d(x.p.size())   /* (identities stay unique) */; d(x.q.size()); break;
    case R_own_sort: if constexpr(k==K_SEQ||k==K_RND){ ix.sort([](const E& u,const E& v){ return u.id<v.id; }); if(o.a[1]&1) ix.reverse(); for(auto& e:ix) d(e.id); } else if constexpr(k==K_HASH){ ix.rehash(o.a[1]%60); d(ix.bucket_count()); } break;
    case R_own_extract: if(n){ auto nh=ix.extract(nth<I>(ix,o.a[1]%(u32)n)); d(nh.value().id); if constexpr(isKey(k)) jx.insert(std::move(nh)); else jx.insert(jx.begin(),std::move(nh)); d(jx.size()); } break;
    case R_own_take: { auto i=n?nth<I>(ix,o.a[1]%(u32)n):ix.end(); pushOwn<I>(x,i); d(i==ix.end()?0:i->id); } break;
    case R_own_list: if constexpr(k==K_SEQ||k==K_RND){ u32 w=o.a[2];
        switch(o.a[1]%7){
          case 0: ix.unique([](const E& u,const E& v){ return u.a==v.a; }); break;
          case 1: ix.remove_if([w](const E& u){ return u.b%5==(int)(w%5); }); break;
          case 2: if(n){ auto a=nth<I>(ix,o.a[2]%(u32)n); ix.relocate(o.a[3]&1?ix.begin():ix.end(),a); } break;
          case 3: if(n>1){ u32 f=1+o.a[2]%(u32)(n-1); ix.relocate(ix.begin(),nth<I>(ix,f),ix.end()); } break;
          case 4: { constexpr int J=(I+1)%N; ix.rearrange(x.p.template get<J>().begin()); } break;
          case 5: { auto lt=[](const E& u,const E& v){ return u.a<v.a; }; ix.sort(lt); jx.sort(lt); ix.merge(jx,lt); } break;
          default: ix.resize(std::min<std::size_t>(n+1,n/2+o.a[2]%4),E((int)(o.a[3]%g_dom),1,x.nextId++)); break;
        }
        for(auto& e:ix) d(e.id);
      } else if constexpr(k==K_HASH){ ix.reserve(o.a[1]%90); ix.max_load_factor(o.a[2]&1?1.f:.5f); d(ix.bucket_count()); for(auto& e:ix) d(e.id); } 
      else { auto key=keyArg<I>(o.a[1],o.a[2],g_dom); d(ix.erase(ix.lower_bound(key),ix.upper_bound(key))==ix.end()); d(ix.size()); } break;
    case R_own_update: if(n){ auto i=nth<I>(ix,o.a[1]%(u32)n); int a=(int)(o.a[2]%g_dom),b=(int)(o.a[3]%g_dom),a0=i->a,b0=i->b; switch(o.a[4]%3){
          case 0: d(ix.replace(i,E(a,b,i->id))); break;
          case 1: d(ix.modify(i,[&](E& e){ e.a=a; e.b=b; },[&](E& e){ e.a=a0; e.b=b0; })); break;
          default: if constexpr(isKey(k)&&keyOf[I]!=2) d(ix.modify_key(i,[&](int& v){ v=a; },[&](int& v){ v=keyOf[I]==0?a0:b0; })); break; } d(ix.size()); for(auto& e:ix) d(e.id); } break;
    case R_own_bulk: { std::vector<E> v; for(u32 z=0;z<o.a[1]%6;++z) v.emplace_back((int)((o.a[2]+z*z)%g_dom),(int)((o.a[3]+z)%g_dom),x.nextId++);
        if constexpr(isKey(k)){ ix.insert(v.begin(),v.end()); d(ix.emplace((int)(o.a[2]%g_dom),(int)(o.a[4]%g_dom),x.nextId++).second); }
        else { ix.insert(o.a[4]&1?ix.begin():ix.end(),v.begin(),v.end()); if constexpr(k==K_RND){ if(o.a[4]&2) ix.reserve(n+o.a[2]%40); else ix.shrink_to_fit(); d(ix.capacity()>=ix.size()); } d(ix.emplace_back((int)(o.a[2]%g_dom),(int)(o.a[4]%g_dom),x.nextId++).second); }
        for(auto& e:ix) d(e.id); } break;
    case R_own_move: { C z(o.a[1]&1?C(x.q):C()); if(z.size()) z.template get<I>().erase(z.template get<I>().begin()); x.q=std::move(z); d(x.q.size()); d(z.size()); C y(std::move(x.q)); d(y.size()); for(auto& e:y.template get<I>()) d(e.id); x.q=std::move(y); } break;
    case R_own_read: { u64 r=o.a[3]&1?readOwn<I>(ix,o):readOwn<I>(const_cast<const Ix<I>&>(ix),o); d(r); d(x.p==x.q); } break;
    default: break;
  }
  }catch(...){ disarm(); cleanOwn(x,d); throw; }
  disarm(); cleanOwn(x,d);
  return d.h;
}
template<int I> static u64 anyOp(const Op& o,Ctx& x){
  if(o.code>=R_own_insert) return ownOp<I>(o,x);
  if(o.a[4]&1) return readOp<I,const C>(o,*sc,x);
  return readOp<I,C>(o,*sc,x);
}
static u64 exec(const Op& o,Ctx& x){
  u64 r;
  op_mark(o.code); arm(o.fn&0xffff,o.fn>>16);
  try{
    switch(o.a[0]%3){ case 0: r=anyOp<0>(o,x); break; case 1: r=anyOp<1>(o,x); break; default: r=anyOp<2>(o,x); }
    disarm();
  }
  catch(Fault&){ disarm(); r=0xF001; }
  catch(std::bad_alloc&){ disarm(); r=0xF002; }
#ifdef MT_SAFE
  catch(SafeError& e){ disarm(); mt_fail("safe-mode-false-alarm","%s reported safe mode error %d for a valid use (thread %d)",op_name[o.code],e.code,self()); }
#endif
  return r;
}
static Ctx* g_ctx[MAXT];
static void threadMain(int t){ for(u32 i=0;i<g_nops;++i) if(g_ops[i].t==(u32)t) g_res[i]=exec(g_ops[i],*g_ctx[t]); }
template<int I> static void checkPool(Ctx& x,const std::vector<u32>& gone,bool dead){
  for(auto& h:std::get<I>(x.pool)){
    bool stale=dead; for(u32 z:gone) if(z==h.id&&h.id) stale=true;
#ifdef MT_SAFE
    bool rep=false; 
    try{ if(h.id||dead){ u32 v=h.it->id; if(!stale&&v!=h.id) bad("after","a held iterator refers to another element"); } else if(!(h.it==sc->template get<I>().end())) bad("after","a held end() iterator differs from end()"); }
    catch(SafeError& e){ rep=true; }
    if(stale&&!rep) mt_fail("safe-mode-miss","a stale iterator went unreported after the threads ended"); 
    if(!stale&&rep) mt_fail("safe-mode-false-alarm","a live iterator was reported after the threads ended");
    ++st_probe[stale?2:3];
#else
    if(!stale&&h.id&&h.it->id!=h.id) bad("after","a held iterator refers to another element");
#endif
  }
}
static void buildShared(const Knobs& k){
  g_dom=k.dom; g_hmode=k.hmode; Rng r{mix(k.hist,99)};
  sc=new C; sd=new C; u32 id=1;
  for(u32 i=0;i<k.n;++i){ E e((int)r.below(k.dom),(int)r.below(k.dom),id++); switch(r.below(3)){ case 0: insertInto<0>(*sc,e); break; case 1: insertInto<1>(*sc,e); break; default: insertInto<2>(*sc,e); }
    if(r.chance(1,5)&&sc->size()) sc->get<1>().erase(nth<1>(sc->get<1>(),r.below((u32)sc->size()))); }
  switch(r.below(3)){ case 0: *sd=*sc; break; case 1: *sd=*sc; if(sd->size()) sd->get<0>().erase(sd->get<0>().begin()); break; default: break; }
}
static void dropShared(){ delete sd; sd=nullptr; delete sc; sc=nullptr; }
// everything of one run; the plan was chosen before
static void simulate(const Knobs& k,const std::vector<Op>& ops){
  heap_begin(); reset_guards(); g_where="setup";
  g_nops=(u32)ops.size(); g_ops=(Op*)operator new(sizeof(Op)*(g_nops+1)); if(g_nops) memcpy(g_ops,ops.data(),sizeof(Op)*g_nops);
  g_res=(u64*)operator new(8*(g_nops+1)); g_want=(u64*)operator new(8*(g_nops+1)); 
  // alone: each thread's operations in a single thread
  buildShared(k);
  for(u32 t=0;t<k.threads;++t){ Ctx* x=new Ctx(t); for(u32 i=0;i<g_nops;++i) if(g_ops[i].t==t) g_want[i]=exec(g_ops[i],*x); delete x; }
  dropShared(); 
  // together
  buildShared(k); for(u32 t=0;t<k.threads;++t) g_ctx[t]=new Ctx(t);
  reset_guards();
  g_where="threads";
  run_threads((int)k.threads,threadMain);
  g_where="after";
  for(u32 i=0;i<g_nops;++i) if(g_ops[i].t<k.threads){ g_log=mix(g_log,g_res[i]); ++st_ops; ++st_opcount[g_ops[i].code]; if(g_ops[i].fn) ++st_faulted; if(g_res[i]==0xF001||g_res[i]==0xF002) ++st_threw;
    if(g_res[i]!=g_want[i]) mt_fail("wrong-result","operation %u (%s) of thread %u gives another result than alone",i,op_name[g_ops[i].code],g_ops[i].t); }
  g_log=mix(g_log,schedule_hash());
  // the containers after the threads: unchanged, and iterators still tracked
  { D a,b; C* together=sc; for(auto& e:together->get<1>()) a(e.id); sc=nullptr; C* od=sd; buildShared(k); for(auto& e:sc->get<1>()) b(e.id); if(a.h!=b.h) bad("after","a shared container changed"); dropShared(); sc=together; sd=od; }
  Rng r{mix(k.afterSeed,7)}; std::vector<u32> gone;
  for(u32 z=r.below(6);z--&&sc->size();){ auto i=nth<1>(sc->get<1>(),r.below((u32)sc->size())); gone.push_back(i->id); sc->get<1>().erase(i); }
  for(u32 t=0;t<k.threads;++t){ checkPool<0>(*g_ctx[t],gone,false); checkPool<1>(*g_ctx[t],gone,false); checkPool<2>(*g_ctx[t],gone,false); }
  if(r.chance(1,2)) dropShared(); 
#ifdef MT_SAFE
  if(!sc) for(u32 t=0;t<k.threads;++t){ checkPool<0>(*g_ctx[t],gone,true); checkPool<1>(*g_ctx[t],gone,true); checkPool<2>(*g_ctx[t],gone,true); }
#endif
  for(u32 t=0;t<k.threads;++t){ delete g_ctx[t]; g_ctx[t]=nullptr; }
  if(sc) dropShared();
  { std::vector<u32> z; gone.swap(z); }
  operator delete(g_ops); operator delete(g_res); operator delete(g_want);
  if(heap_live()!=0) mt_fail("leak","%lu blocks are still allocated at the end",(unsigned long)heap_live());
  heap_end(); ++st_runs;
}
// ---------------------------------------------------------------- driver
extern void (*g_onFail)();
}
using namespace mt;
void mt_fail(const char* cls,const char* f,...){
  static bool in=false; if(in) _exit(3); in=true;
  heap_end(); char b[1024]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap);
  // operation numbers to names
  std::string s; for(char* p=b;*p;){ if(!strncmp(p,"(operation ",11)){ unsigned v=atoi(p+11); s+="("; s+=v<R_N?op_name[v]:"?"; p=strchr(p,')'); s+=")"; ++p; } else s+=*p++; }
  printf("FAIL class=%s tags=C18 run=%" PRIu64 " hash=%016" PRIx64 " at={%s} msg=%s\n",cls,g_run,schedule_hash(),g_where.c_str(),s.c_str());
  fflush(stdout); if(g_onFail) g_onFail(); writeStats(); _exit(3);
}
namespace mt{
static void writeStats(){
  if(!g_out) return;
  FILE* f=fopen((std::string(g_out)+".json").c_str(),"w"); if(!f) return;
  fprintf(f,"{\"runs\":%" PRIu64 ",\"ops\":%" PRIu64 ",\"ops_faulted\":%" PRIu64 ",\"ops_threw\":%" PRIu64 ",\"ops_vetoed\":0,\"nontrivial\":%" PRIu64 ",\"fired\":{\"preemption\":%" PRIu64 ",\"thread_stall\":%" PRIu64 ",\"blocked_on_mutex\":%" PRIu64 ",\"user_operation_or_allocation_failure\":%" PRIu64 "},\"ops_by_kind\":{",st_runs,st_ops,st_faulted,st_threw,st_nontrivial,cnt.preemptions,cnt.stalls,cnt.blocked,cnt.faults);
  bool first=true; for(int i=0;i<R_N;++i) if(st_opcount[i]){ fprintf(f,"%s\"%s\":%" PRIu64,first?"":",",op_name[i],st_opcount[i]); first=false; }
  st_probe[10]=cnt.accesses; st_probe[11]=cnt.lockops; st_probe[12]=cnt.sharedAcc; st_probe[13]=cnt.guards; st_probe[14]=cnt.guardWaits; st_probe[15]=cnt.threads;
  fprintf(f,"},\"probes\":["); for(int i=0;i<64;++i) fprintf(f,"%s%" PRIu64,i?",":"",st_probe[i]); fprintf(f,"]}\n"); fclose(f);
}
static std::vector<u64> g_hashes;
static void choose(u64 seed,u64 idx,Knobs& k,std::vector<Op>& ops,Plan& pl){
  Rng r{mix(mix(seed,CFG+501
#ifdef MT_SAFE
   +50
#endif
  ),idx*2+1)};
  static const u32 NN[6]={0,1,3,6,10,16}; static const u32 DM[4]={2,3,6,12};
  k.n=NN[r.below(6)]; k.dom=DM[r.below(4)]; k.hmode=r.below(3); k.threads=2+r.below(3); k.hist=(u32)r.next()>>4; k.afterSeed=(u32)r.next()>>4;
  u32 per=1+r.below(r.chance(1,3)?12:5); u32 mode=r.below(6); // 0..3 readers only, 4 mixed, 5 private only
  u32 w[R_N]; for(u32 i=0;i<R_N;++i){ w[i]=r.below(4); if(i>=R_own_insert){ if(mode<4) w[i]=0; } else if(mode==5) w[i]=0; } 
  w[R_take]+=mode==5?0:1; if(mode>=4){ w[R_own_insert]+=3; w[R_own_take]+=2; }
  u32 tot=0; for(u32 x:w) tot+=x; u32 fo=r.chance(1,3)?25:0; u32 focus=r.below(3);
  for(u32 t=0;t<k.threads;++t) for(u32 i=0;i<per;++i){ Op o; o.t=t; u32 x=r.below(tot); u32 c=0; while(x>=w[c]){ x-=w[c]; ++c; } o.code=c; for(auto& a:o.a) a=(u32)r.next()>>8; if(r.chance(1,2)) o.a[0]=focus; o.fn=0; if(fo&&r.below(100)<fo&&c<R_own_insert) o.fn=r.chance(1,3)?(1+r.below(4))<<16:1+r.below(10); ops.push_back(o); }
  pl=Plan(); pl.seed=r.next(); static const u32 Q[7]={2,3,6,16,50,150,600}; pl.strategy=(int)r.below(4); pl.q=Q[r.below(pl.strategy==S_RANDOM?7:3)]; pl.depth=1+r.below(8);
  static const u64 EST[4]={300,1500,6000,20000}; pl.estimate=EST[r.below(4)]; if(r.chance(1,6)){ pl.stall=(int)r.below(k.threads); pl.stallAt=r.below((u32)pl.estimate); }
}
static int g_wd=10;
static void watchdog(int s){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=s; setitimer(ITIMER_PROF,&t,nullptr); }
static void oneRun(u64 seed,u64 idx,FILE* trace){
  g_run=idx; g_log=1469598103934665603ull; Knobs k; std::vector<Op> ops; Plan pl; choose(seed,idx,k,ops,pl); watchdog(g_wd);
  static Knobs* kk; static std::vector<Op>* oo; kk=&k; oo=&ops;
  struct W{ static void out(FILE* f){ if(!f) return; fprintf(f,"# thread simulation trace: operations (op thread name arguments fault) and context switches (sw thread step to)\nknobs %d %u %u %u %u %u %u\n",CFG,kk->n,kk->dom,kk->hmode,kk->threads,kk->hist,kk->afterSeed);
      for(auto& o:*oo) fprintf(f,"op %u %s %u %u %u %u %u %u\n",o.t,op_name[o.code],o.a[0],o.a[1],o.a[2],o.a[3],o.a[4],o.fn);
      const Sw* s; size_t n=switches(&s); for(size_t i=0;i<n;++i) fprintf(f,"sw %u %u %u\n",s[i].t,s[i].step,s[i].to); fclose(f); } };
  // the trace is written even when the run fails: atexit-like hook through a static
  static FILE* tf; tf=trace; g_onFail=[]{ W::out(tf); tf=nullptr; };
  u64 p0=cnt.preemptions; plan_random(pl); simulate(k,ops); if(tf){ W::out(tf); tf=nullptr; }
  if(cnt.preemptions>p0){ ++st_nontrivial; g_hashes.push_back(g_log); } else g_hashes.push_back(0);
}
void (*g_onFail)()=nullptr;
static int replay(const char* path){
  FILE* f=fopen(path,"r"); if(!f) return 2; char line[512]; Knobs k; std::vector<Op> ops; std::vector<Sw> sw; bool ok=false;
  while(fgets(line,sizeof line,f)){
    if(line[0]=='#'||line[0]=='\n') continue;
    if(!strncmp(line,"knobs ",6)){ int c; if(sscanf(line+6,"%d %u %u %u %u %u %u",&c,&k.n,&k.dom,&k.hmode,&k.threads,&k.hist,&k.afterSeed)!=7||c!=CFG) return 2; ok=true; }
    else if(!strncmp(line,"op ",3)){ Op o; char nm[64]; if(sscanf(line+3,"%u %63s %u %u %u %u %u %u",&o.t,nm,&o.a[0],&o.a[1],&o.a[2],&o.a[3],&o.a[4],&o.fn)!=8) return 2; o.code=R_N; for(u32 i=0;i<R_N;++i) if(!strcmp(nm,op_name[i])) o.code=i; if(o.code==R_N) return 2; ops.push_back(o); }
    else if(!strncmp(line,"sw ",3)){ Sw s; if(sscanf(line+3,"%u %u %u",&s.t,&s.step,&s.to)!=3) return 2; sw.push_back(s); }
  }
  fclose(f); if(!ok||k.threads<1||k.threads>MAXT) return 2;
  g_log=1469598103934665603ull; plan_replay(sw.data(),sw.size()); watchdog(g_wd); simulate(k,ops);
  printf("OK hash=%016" PRIx64 "\n",g_log); return 0;
}
static void onHang(int){ const char m[]="\nHANG\n"; ssize_t r=write(1,m,sizeof m-1); (void)r; _exit(67); }
static void onCrash(int sig){ char m[64]; int n=snprintf(m,sizeof m,"\nCRASH signal=%d\n",sig); ssize_t r=write(1,m,n); (void)r; if(g_onFail) g_onFail(); _exit(68); }
}
int main(int argc,char** argv){
  { int p=personality(0xffffffff); if(p!=-1&&!(p&ADDR_NO_RANDOMIZE)&&personality(p|ADDR_NO_RANDOMIZE)!=-1&&!getenv("SIM_REEXEC")){ setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",argv); } }
  static char stk[1<<16]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=stk; ss.ss_size=sizeof stk; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onCrash; sa.sa_flags=SA_ONSTACK; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT}) sigaction(s,&sa,nullptr);
  signal(SIGPROF,onHang); if(const char* w=getenv("SIM_WATCHDOG")) g_wd=atoi(w)>0?atoi(w):10;
  std::string m=argc>1?argv[1]:"";
  if(m=="replay"&&argc==3) return replay(argv[2]);
  if(m=="one"&&argc==6){ FILE* t=fopen(argv[5],"w"); if(!t) return 2; oneRun(strtoull(argv[3],0,10),strtoull(argv[4],0,10),t); printf("OK hash=%016" PRIx64 "\n",g_log); return 0; }
  if(m=="run"&&argc==7){
    u64 seed=strtoull(argv[3],0,10),a=strtoull(argv[4],0,10),b=strtoull(argv[5],0,10); g_out=argv[6]; bitmapBytes=1<<19; bitmap=(u8*)calloc(bitmapBytes,1); 
    int fd=open((std::string(g_out)+".progress").c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); if(fd<0||ftruncate(fd,8)) return 2; u64* pr=(u64*)mmap(nullptr,8,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
    for(u64 i=a;i<b;++i){ *pr=i+1; oneRun(seed,i,nullptr); }
    watchdog(0); writeStats();
    FILE* f=fopen((std::string(g_out)+".hashes").c_str(),"wb"); fwrite(g_hashes.data(),8,g_hashes.size(),f); fclose(f);
    f=fopen((std::string(g_out)+".bitmap").c_str(),"wb"); fwrite(bitmap,1,bitmapBytes,f); fclose(f);
    printf("OK runs=%" PRIu64 "\n",st_runs); return 0;
  }
  fprintf(stderr,"usage: run PROP SEED FROM TO OUT | one PROP SEED IDX TRACE | replay TRACE\n"); return 2;
}
