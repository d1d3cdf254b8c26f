// The simulated world: container slots, node handles, long-held iterators, the
// reference model, and the oracles comparing both after every operation.
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP
#include "config.hpp"
#include "profile.hpp"
#include <sstream>
#include <tuple>
#include <cmath>

namespace sim{

typedef const Elem* EP;
typedef std::vector<EP> Seq;

enum OpCode{
  K_INSERT,K_INSERT_RANGE,K_ERASE_IT,K_ERASE_KEY,K_ERASE_RANGE,K_REPLACE,K_MODIFY,K_MODIFY_RB,K_MODKEY,K_MODKEY_RB,
  K_LOOKUP,X_EXTRACT_IT,X_EXTRACT_KEY,X_INSERT,X_MISC,
  M_ONE,M_RANGE,M_ALL,
  P_INSERT,P_INSERT_N,P_INSERT_RANGE,P_POP,P_ASSIGN,P_RESIZE,P_SPLICE_ONE,P_SPLICE_RANGE,P_SPLICE_ALL,
  P_REMOVE,P_UNIQUE,P_MERGE,P_SORT,P_REVERSE,P_RELOC,P_RELOC_RANGE,P_REARRANGE,P_CAP,
  H_REHASH,H_MLF,
  C_CLEAR,C_COPY,C_MOVE,C_COPY_ASSIGN,C_MOVE_ASSIGN,C_INIT_ASSIGN,C_SWAP,C_RECREATE,C_COMPARE,
  I_TAKE,I_USE,I_DROP,I_BAD,
  S_ROUND,S_FAULT_SAVE,S_FAULT_LOAD,
  V_SPOIL,
  OP_N
};
static const char* const op_name[OP_N]={
  "insert","insert_range","erase_it","erase_key","erase_range","replace","modify","modify_rollback","modify_key","modify_key_rollback",
  "lookup","extract_it","extract_key","insert_handle","handle_misc",
  "merge_one","merge_range","merge_all",
  "pos_insert","pos_insert_n","pos_insert_range","pop","assign","resize","splice_one","splice_range","splice_all",
  "remove","unique","list_merge","sort","reverse","relocate","relocate_range","rearrange","capacity",
  "rehash","max_load_factor",
  "clear","copy","move","copy_assign","move_assign","init_assign","swap","recreate","compare",
  "iter_take","iter_use","iter_drop","iter_bad",
  "save_load","faulty_save","faulty_load","spoil"};

struct Op{
  u32 code=0; u32 a[8]={0}; u32 fmask=0,fn=0,fn2=0,sticky=0;
};

struct Knobs{
  u32 dom[4]={8,8,8,8};
  u32 reuse=0; u32 maxn=24; u32 vary=0;      // vary: seed for functor states / allocator ids
  u32 nalloc=2; u32 fill=0; u32 pat=0;    // pat: pattern of generated keys, 0 random
};
struct Trace{ Knobs k; std::vector<Op> ops; };

//---------------------------------------------------------------- content helpers
inline int cmp3(const IdxState& s,const Content& a,const Content& b){
  for(auto& c:s.c){ int x=norm(a.k[c.f],c.div),y=norm(b.k[c.f],c.div); if(x!=y) return (x<y)==(c.dir>0)?-1:1; }
  return 0;
}
inline int cmpProbe(const IdxState& s,const Content& a,const int* p,int n){
  for(int i=0;i<n;++i){ auto& c=s.c[i]; int x=norm(a.k[c.f],c.div),y=norm(p[i],c.div); if(x!=y) return (x<y)==(c.dir>0)?-1:1; }
  return 0;
}
inline bool equiv(const IdxState& s,const Content& a,const Content& b){
  for(auto& c:s.c) if(norm(a.k[c.f],c.div)!=norm(b.k[c.f],c.div)) return false;
  return true;
}

struct Ent{ EP p; Content c; u64 birth; };
struct Cont{                        // elements of one container, sorted by address
  std::vector<Ent> v;
  void sort(){ std::sort(v.begin(),v.end(),[](const Ent&a,const Ent&b){return a.p<b.p;}); }
  const Ent* find(EP p)const{ auto i=std::lower_bound(v.begin(),v.end(),p,[](const Ent&a,EP q){return a.p<q;}); return i!=v.end()&&i->p==p?&*i:nullptr; }
  void add(const Ent& e){ auto i=std::lower_bound(v.begin(),v.end(),e.p,[](const Ent&a,EP q){return a.p<q;}); v.insert(i,e); }
  void del(EP p){ auto i=std::lower_bound(v.begin(),v.end(),p,[](const Ent&a,EP q){return a.p<q;}); if(i!=v.end()&&i->p==p) v.erase(i); }
  size_t size()const{ return v.size(); }
};

template<class K> struct Slot{
  typedef K Cfg; typedef typename K::C C;
  C* c=nullptr; int sid=0;
  u32 alloc=1;
  std::vector<IdxState> st;
  std::vector<Seq> ord;
  Cont cont;
  struct Room{ C* c=nullptr; size_t m=0,got=0; }; Room room[K::N];   // what a reserve() promised
};
template<class K> struct Obs{ std::vector<Seq> ord; Cont cont; };

enum Mode{M_EXACT,M_STABLE,M_FREE};
struct Want{
  Cont cont;                       // expected elements; tokens (small EPs) stand for new ones
  std::vector<int> mode;
  std::vector<Seq> seq;            // for M_EXACT
  std::set<EP> moved;              // exempt from M_STABLE
  u32 hexact=0;                    // hashed indices whose enumeration must not change at all
  u32 tokens=0;
};
inline bool isToken(EP p){ return (uintptr_t)p<0x100000; }

struct ItBase{
  virtual ~ItBase(){}
  virtual EP deref()=0;
  virtual ItBase* clone()=0;
  virtual void assign(ItBase*)=0;
  virtual bool equal(ItBase*)=0;
  virtual void inc()=0; virtual void dec()=0;
  virtual bool hasDec()=0;
};
template<class It,bool BIDIR> struct ItHolder:ItBase{
  It it;
  ItHolder(){} 
  explicit ItHolder(const It& i):it(i){}
  EP deref(){ return &*it; }
  ItBase* clone(){ return new ItHolder(*this); }
  void assign(ItBase* o){ it=static_cast<ItHolder*>(o)->it; }
  bool equal(ItBase* o){ return it==static_cast<ItHolder*>(o)->it; }
  void inc(){ ++it; }
  void dec(){ if constexpr(BIDIR) --it; }
  bool hasDec(){ return BIDIR; }
};
enum ItState{IT_VALID,IT_STALE,IT_SINGULAR,IT_DROP};
struct ItEnt{ std::unique_ptr<ItBase> h; int state; int sid; int idx; EP p; u64 birth; bool typeA; };

struct CallRes{ bool threw=false; int kind=-1; bool safe=false; int code=-1; bool alloc=false; bool big=false; std::string what; };

// tags for a kind of index
inline const char* kindTag(Kind k){ switch(k){case K_ORD:return "C08";case K_RNK:return "C08,C09";case K_HASH:return "C10";case K_SEQ:return "C11";default:return "C12";} }

extern std::string g_optags,g_faulttags;
#ifdef SIM_INV
extern u32 g_invHits; extern u32 g_opcode;
#endif

inline std::string fmt(const char* f,...){ char b[512]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }

// input iterator over contents, with fault points
struct InIt{
  typedef std::input_iterator_tag iterator_category; typedef Elem value_type; typedef std::ptrdiff_t difference_type; typedef const Elem* pointer; typedef const Elem& reference;
  const std::vector<Elem>* v; size_t i;
  const Elem& operator*()const{ point(F_ITER); return (*v)[i]; }
  const Elem* operator->()const{ return &**this; }
  InIt& operator++(){ point(F_ITER); ++i; return *this; }
  InIt operator++(int){ InIt r(*this); ++*this; return r; }
  bool operator==(const InIt& o)const{ return i==o.i; }
  bool operator!=(const InIt& o)const{ return i!=o.i; }
};
struct InItV{                        // as above, but each dereference yields a new object
  typedef std::input_iterator_tag iterator_category; typedef Elem value_type; typedef std::ptrdiff_t difference_type; typedef const Elem* pointer; typedef Elem reference;
  const std::vector<Elem>* v; size_t i;
  Elem operator*()const{ point(F_ITER); return (*v)[i]; }
  InItV& operator++(){ point(F_ITER); ++i; return *this; }
  InItV operator++(int){ InItV r(*this); ++*this; return r; }
  bool operator==(const InItV& o)const{ return i==o.i; }
  bool operator!=(const InItV& o)const{ return i!=o.i; }
};
template<class E> struct ViewIt{       // free view for rearrange
  typedef std::input_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef const E* pointer; typedef const E& reference;
  const std::vector<const E*>* v; size_t i;
  const E& operator*()const{ point(F_ITER); return *(*v)[i]; }
  ViewIt& operator++(){ point(F_ITER); ++i; return *this; }
  ViewIt operator++(int){ ViewIt r(*this); ++*this; return r; }
};

struct ModF{        // modifier: overwrites chosen key fields
  Content to; bool* done; 
  void operator()(Elem& e)const{ point(F_MOD); e.chk("modified"); e.c=to; *done=true; }
};
struct BackF{ Content to; bool* done; bool throws_=false; 
  void operator()(Elem& e)const{ point(F_BACK); e.chk("restored"); e.c=to; *done=true; g.countAfter=true; g.eventsAfterMark=0; }
};
struct ModKeyF{ int to; bool* done; void operator()(int& k)const{ point(F_MOD); k=to; *done=true; } };
struct BackKeyF{ int to; bool* done; void operator()(int& k)const{ point(F_BACK); k=to; *done=true; } };

struct Pred{ int f,m,r; bool operator()(const Elem& e)const{ point(F_PRED); return test(e.chk("examined").c); } bool test(const Content& c)const{ int v=c.k[f]%m; return (v<0?v+m:v)==r; } };
struct BinPred{ int f,d,g; bool operator()(const Elem& a,const Elem& b)const{ point(F_PRED); return test(a.chk("examined").c,b.chk("examined").c);} bool test(const Content&a,const Content&b)const{ return norm(a.k[f],d)==norm(b.k[f],d)&&(g<0||!(a.k[g]&1));} }; // documented as pred(*i,*(i-1)): g makes the two arguments differ
struct ElCmp{ int f,dir,div; bool operator()(const Elem&a,const Elem&b)const{ point(F_PRED); return test(a.chk("examined").c,b.chk("examined").c);} bool test(const Content&a,const Content&b)const{ int x=norm(a.k[f],div),y=norm(b.k[f],div); return dir>0?x<y:y<x;} };

template<class KA,class KB> class World{
public:
  static constexpr bool SAME=std::is_same<KA,KB>::value;
  static constexpr int NA=SAME?4:3, NB=SAME?0:2, NS=NA+NB;
  static constexpr int NH=3;
  typedef typename KA::C::node_type NH_t;
  static_assert(std::is_same<NH_t,typename KB::C::node_type>::value,"node-incompatible configuration");
  static constexpr int POL=KA::pol;

  Slot<KA> sa[NA]; Slot<KB> sb[NB?NB:1];
  struct HSlot{ NH_t h; bool full=false; EP p=nullptr; Content c; u64 birth=0; u32 alloc=0; };
  HSlot nh[NH];
  std::vector<ItEnt> its;
  Knobs kn;
  const Op* cur=nullptr;
  u32 nextId=1; u64 nextBirthSeen=0;
  u32 opno=0;
  bool usedFault=false;
  bool anyFaultEver=false;

  //------------------------------------------------------------ dispatch
  template<class F> void withSlot(u32 s,F f){ s%=NS; if(s<(u32)NA) f(sa[s]); else if constexpr(NB>0) f(sb[s-NA]); }
  template<class F> void eachSlot(F f){ for(int i=0;i<NA;++i) f(sa[i]); if constexpr(NB>0) for(int i=0;i<NB;++i) f(sb[i]); }
  template<class K,class F,size_t... I> static void withIdx_(int i,F& f,std::index_sequence<I...>){ (void)std::initializer_list<int>{ (i==(int)I?(f(std::integral_constant<int,(int)I>()),0):0)... }; }
  template<class K,class F> static void withIdx(int i,F f){ withIdx_<K>(i,f,std::make_index_sequence<K::N>()); }
  template<class K,class P> static int pickIdx(u32 r,P p){ int ok[K::N],n=0; for(int i=0;i<K::N;++i) if(p(K::kinds[i])) ok[n++]=i; return n?ok[r%n]:-1; }

  //------------------------------------------------------------ construction
  std::vector<IdxState> states(Rng& r,std::vector<IdxState> d,u32 vary){
    if(vary) for(auto& s:d){ for(auto& c:s.c){
        if(r.chance(1,3)) c.dir=-1;
        if(r.chance(1,4)) c.div=2;
        if(r.chance(1,4)) c.f=r.below(4);
      }
      s.hmode=r.below(4); }
    return d;
  }
  template<class K> void create(Slot<K>& s,u32 seed,u32 alloc,const std::vector<Content>* init){
    Rng r(seed);
    s.st=states(r,K::def(),kn.vary&&!r.chance(1,3));
    s.alloc=alloc;
    bool dflt=false; { auto d=K::def(); dflt=true; for(int i=0;i<K::N;++i) if(!(d[i].c==s.st[i].c)||d[i].hmode!=s.st[i].hmode) dflt=false; }
    u32 nb=r.chance(1,2)?0:r.below(60);
    std::vector<Src> raws; if(init) for(auto& c:*init) raws.push_back(Src{c});
    typedef typename K::C C;
    C* volatile made=nullptr;
    std::vector<Elem> src; if(init) for(auto& c:*init) src.emplace_back(c);
    auto args=K::args(s.st,nb);
    typename K::alloc al(alloc);
    int how=r.below(5);
    void* raw; { Disarm d; raw=::operator new(sizeof(C)); }
    CallRes cr=call([&]{
      if(init){
        if(how==0) made=new(raw) C(src.begin(),src.end(),args,al);
        else if(how==1&&src.size()==3) made=new(raw) C({src[0],src[1],src[2]},args,al);
        else if(how==2) made=new(raw) C(raws.begin(),raws.end(),args,al);
        else if(how==3) made=new(raw) C(InItV{&src,0},InItV{&src,src.size()},args,al);
        else made=new(raw) C(InIt{&src,0},InIt{&src,src.size()},args,al);
      }
      else if(dflt&&how==0) made=new(raw) C(al);
      else made=new(raw) C(args,al);
    });
    if(cr.threw){
      ::operator delete(raw);
      optags("C14"); 
      checkGlobal();   // nothing may be left behind
      // retry without a fault
      made=new C(args,al);
      init=nullptr;
    }
    s.c=made;
    s.ord.assign(K::N,Seq()); s.cont=Cont();
    Obs<K> o; observe(s,o);
    if(init){
      // expected: sequential insertion of the inputs into an empty container
      Want w; wantSame(s,w);
      for(auto& c:*init) if(conflicts(s,w,c,nullptr).empty()) wantNew(s,w,c,-1,0,true);
      judge(s,o,w,"C01,C02,C14");
    }
    else if(o.cont.size()) fail("not-empty","C01,C14","a newly constructed container is not empty");
    adopt(s,o);
  }
  template<class K> void destroy(Slot<K>& s){ if(s.c){ { Arm a; delete s.c; } s.c=nullptr; s.ord.assign(K::N,Seq()); s.cont=Cont(); } }

  void optags(const char* t){ g_optags=t; }

  //------------------------------------------------------------ calls into the library
  bool planUsed=false;
  void arm(){
    g.count=g.count2=g.fired=0; g.opPoints=0; g.cmps=0; g.countAfter=false; g.eventsAfterMark=0; g.lastFiredAt=0;
    if(planUsed||!cur){ g.mask=0; g.nth=g.nth2=0; g.sticky=false; }
    else{ g.mask=cur->fmask; g.nth=cur->fn; g.nth2=cur->fn2; g.sticky=cur->sticky; }
    planUsed=true;
  }
  template<class F> CallRes call(F f){
    CallRes r;
#ifdef SIM_INV
    u32 seen=g_invSeen;
#endif
    arm();
    g_faulttags=""; u64 out0=g_outElems;
    try{ Arm a; f(); }
    catch(Fault& x){ r.threw=true; r.kind=x.kind; }
    catch(FaultAlloc&){ r.threw=true; r.kind=F_ALLOC; r.alloc=true; }
    catch(FaultBig&){ r.threw=true; r.kind=F_BIG; r.big=true; r.what="more memory than there is was requested"; }
#ifdef SIM_SAFE
    catch(SafeError& e){ r.threw=true; r.safe=true; r.code=e.code; }
#endif
    catch(std::exception& e){ r.threw=true; r.what=e.what(); r.kind=-2; }
    g.countAfter=false;
#ifdef SIM_INV
    if(!r.threw&&g_invSeen==seen) switch(g_opcode){
      case K_INSERT: case K_INSERT_RANGE: case K_ERASE_IT: case K_ERASE_RANGE: case K_REPLACE: case K_MODIFY: case K_MODIFY_RB: case K_MODKEY: case K_MODKEY_RB: case X_EXTRACT_IT: case X_INSERT: case M_ONE: case M_RANGE: case M_ALL:
      case P_INSERT: case P_INSERT_N: case P_INSERT_RANGE: case P_POP: case P_ASSIGN: case P_RESIZE: case P_SPLICE_ONE: case P_SPLICE_RANGE: case P_SPLICE_ALL: case P_SORT: case P_REVERSE: case P_RELOC: case P_RELOC_RANGE: case P_REARRANGE: case P_CAP: case H_REHASH:
      case C_CLEAR: case C_COPY: case C_MOVE: case C_COPY_ASSIGN: case C_INIT_ASSIGN: case C_SWAP: case C_RECREATE:
        fail("invariant-unchecked","C23","an operation that changes a container ran no invariant check");
      default: break;
    }
#endif
    if(g_outElems!=out0) fail(g_outElems>out0?"temporary-leak":"temporary-lost","C06,C15,C16","an operation left %ld temporary elements alive",(long)(g_outElems-out0));
    if(g.fired){ ++g.st.ops_faulted; anyFaultEver=true; }
    if(r.threw) ++g.st.ops_threw;
    logv(r.threw?0x51:0x50); logv((u64)(r.kind+7)); logv(r.safe?r.code+100:0);
    g.mask=0; // disarm plan
    return r;
  }
  // outcome rules shared by all operations
  void outcome(const CallRes& r,const char* faultTags,bool nothrow=false){
    g_faulttags=(g.fired||r.threw)?faultTags:"";
    if(r.safe) fail("safe-mode-false-alarm","C17","safe mode reported error %d for a valid use",r.code);
    if(g.fired&&!r.threw) fail("exception-swallowed","C03,C04,C05,C16","an exception thrown by a user operation (%s) was not propagated",fk_name[g.firedKind]);
    if(r.threw&&!g.fired) fail("unexpected-exception","*","an exception was thrown although no user operation failed (%s)",r.what.c_str());
    if(r.threw&&nothrow) fail("nothrow-violated","C03","an operation documented not to throw threw (%s)",fk_name[g.firedKind]);
  }

  //------------------------------------------------------------ observation
  template<class K> void observe(Slot<K>& s,Obs<K>& o){
    Disarm d_;
    auto& c=*s.c; const auto& cc=c;
    o.ord.assign(K::N,Seq()); o.cont=Cont();
    size_t n=c.size();
    size_t lim=n+1;
    withEachIdx<K>([&](auto I){
      constexpr int i=decltype(I)::value; constexpr Kind kd=K::kinds[i];
      auto& ix=c.template get<i>(); const auto& cx=cc.template get<i>();
      Seq& v=o.ord[i]; v.reserve(n);
      size_t cnt=0;
      for(auto it=cx.begin(),e=cx.end();it!=e;++it){ if(++cnt>lim) fail("traversal",tagsI<K>(i,"C01").c_str(),"index %d enumerates more elements than size()=%lu",i,(unsigned long)n); EP p=&*it; p->chk("reached by traversal"); v.push_back(p); }
      if(v.size()!=n) fail("traversal",tagsI<K>(i,"C01").c_str(),"index %d enumerates %lu elements, size() is %lu",i,(unsigned long)v.size(),(unsigned long)n);
      if(ix.size()!=n||ix.empty()!=(n==0)) fail("size",tagsI<K>(i,"C01").c_str(),"size()/empty() disagree between indices");
      if constexpr(kd!=K_HASH){
        size_t k=n; auto it=cx.end(); 
        while(k>0){ --it; --k; if(&*it!=v[k]) fail("traversal",tagsI<K>(i,"C01").c_str(),"backward traversal of index %d differs from forward traversal",i); }
        if(!(it==cx.begin())) fail("traversal",tagsI<K>(i,"C01").c_str(),"backward traversal of index %d does not end at begin()",i);
        k=n; if(opno&1){ for(auto rt=ix.rbegin();rt!=ix.rend()&&k;++rt) if(&*rt!=v[--k]){ ++k; break; } } else { for(auto rt=cx.crbegin();rt!=cx.crend()&&k;++rt) if(&*rt!=v[--k]){ ++k; break; } }
        if(k) fail("traversal",tagsI<K>(i,"C01").c_str(),"the reverse iterators of index %d disagree with its forward traversal",i);
      }
    });
    // set coherence
    for(EP p:o.ord[0]) o.cont.v.push_back(Ent{p,p->c,p->birth});
    o.cont.sort();
    for(size_t i=1;i<o.cont.v.size();++i) if(o.cont.v[i].p==o.cont.v[i-1].p) fail("coherence",tagsI<K>(0,"C01").c_str(),"an element is enumerated twice by index 0");
    for(int i=1;i<K::N;++i){
      Seq t=o.ord[i]; std::sort(t.begin(),t.end());
      for(size_t j=0;j<t.size();++j) if(t[j]!=o.cont.v[j].p) fail("coherence",(tagsI<K>(0,"C01")+","+tagsI<K>(i,"C01")).c_str(),"index %d does not enumerate the same elements as index 0",i);
    }
    // memory ownership
    if(c.get_allocator().id!=s.alloc) fail("allocator","C14,C06","container allocator is %u, expected %u",c.get_allocator().id,s.alloc);
    withEachIdx<K>([&](auto I){ constexpr int i=decltype(I)::value; structure<K,i>(s,o); });
    for(auto& e:o.cont.v){ logv(arena.off(e.p)); logv(e.c.k[0]*31+e.c.k[1]*7+e.c.k[2]*3+e.c.k[3]); }
    for(auto& v:o.ord) for(EP p:v) logv(arena.off(p));
  }
  template<class K,class F,size_t... I> static void eachIdx_(F& f,std::index_sequence<I...>){ (void)std::initializer_list<int>{ (f(std::integral_constant<int,(int)I>()),0)... }; }
  template<class K,class F> static void withEachIdx(F f){ eachIdx_<K>(f,std::make_index_sequence<K::N>()); }
  template<class K> static std::string tagsI(int i,const char* extra){ return std::string(extra)+","+kindTag(K::kinds[i]); }
  template<class K> static void kprobe(int k,const Comp*,int){}

  // order, uniqueness and navigation invariants of one index
  template<class K,int i> void structure(Slot<K>& s,const Obs<K>& o){
    constexpr Kind kd=K::kinds[i]; constexpr bool uq=K::uniqs[i];
    auto& c=*s.c; auto& ix=c.template get<i>(); const auto& cx=ix;
    const IdxState& st=s.st[i]; const Seq& v=o.ord[i]; size_t n=v.size();
    if constexpr(isOrd(kd)){
      for(size_t j=1;j<n;++j){
        int r=cmp3(st,v[j-1]->c,v[j]->c);
        if(r>0) fail("unsorted","C08,C05,C01","ordered index %d is not sorted at position %lu",i,(unsigned long)j);
        if(uq&&r==0) fail("duplicate-key","C02,C08","unique ordered index %d holds two equivalent keys",i);
      }
    }
    if constexpr(isOrd(kd)){
      if(n>=8){ // depth of some elements, as seen by the number of comparisons
        struct Keep{ u32 op,cm,mp[F_NK]; Keep():op(g.opPoints),cm(g.cmps){ memcpy(mp,g.maskPoints,sizeof mp); } ~Keep(){ g.opPoints=op; g.cmps=cm; memcpy(g.maskPoints,mp,sizeof mp); } } keep_; (void)keep_;
        size_t at[3]={0,n-1,(opno*11)%n};
        for(size_t j:at){
          g.cmps=0; auto it=cx.end(); { Arm a_; it=cx.find(cx.key_extractor()(*v[j])); }
          if(it==cx.end()||cmp3(st,(*it).c,v[j]->c)!=0) fail("lookup","C08,C05","element not found by its own key in ordered index %d",i);
          double lim=(2*std::log2((double)n+1)+4)*(K::ncs[i]==1?1:4);
          if(g.cmps>lim) fail("complexity","C08","find() in %lu elements took %u comparisons",(unsigned long)n,g.cmps);
        }
      }
    }
    if constexpr(kd==K_RNK){
      size_t j=0; 
      for(auto it=cx.begin();it!=cx.end();++it,++j) if(cx.rank(it)!=j) fail("rank","C09","rank() is %lu at position %lu",(unsigned long)cx.rank(it),(unsigned long)j);
      if(cx.rank(cx.end())!=n) fail("rank","C09","rank(end()) is %lu, size is %lu",(unsigned long)cx.rank(cx.end()),(unsigned long)n);
      for(j=0;j<n;++j) if(&*cx.nth(j)!=v[j]) fail("rank","C09","nth(%lu) is not the element at that position",(unsigned long)j);
      if(cx.nth(n)!=cx.end()||cx.nth(n+3)!=cx.end()||cx.nth(~size_t(0))!=cx.end()) fail("rank","C09","nth() beyond the size is not end()");
    }
    if constexpr(kd==K_HASH){
      // equivalent elements adjacent / unique
      std::vector<EP> byk(v);
      for(size_t j=0;j<n;){
        size_t e=j+1; while(e<n&&equiv(st,v[j]->c,v[e]->c)) ++e;
        if(uq&&e-j>1) fail("duplicate-key","C02,C10","unique hashed index %d holds two equivalent keys",i);
        j=e;
      }
      // each group only once: count changes of group against distinct keys
      {
        std::vector<std::vector<int>> ks; size_t groups=0;
        for(size_t j=0;j<n;++j){ if(j==0||!equiv(st,v[j-1]->c,v[j]->c)){ ++groups; std::vector<int> q; for(auto& cp:st.c) q.push_back(norm(v[j]->c.k[cp.f],cp.div)); ks.push_back(q); } }
        std::sort(ks.begin(),ks.end()); ks.erase(std::unique(ks.begin(),ks.end()),ks.end());
        if(ks.size()!=groups) fail(uq?"duplicate-key":"grouping",uq?"C02,C10":"C10,C05","equivalent elements of hashed index %d are not adjacent",i);
      }
      size_t bc=cx.bucket_count(); size_t tot=0;
      if(bc==0) fail("buckets","C10","bucket_count() is 0");
      if(PROF.deepHash||(opno%4)==0){
        size_t ne=0;
        if(bc<=4096){
          for(size_t b=0;b<bc;++b){
            size_t k=0; 
            if(opno&1){ size_t q=0; auto& mx=c.template get<i>(); typename std::remove_reference<decltype(ix)>::type::const_local_iterator cl=mx.begin(b); for(auto it=mx.begin(b);it!=mx.end(b)&&q<=n;++it,++q){ if(&*it!=&*cl) fail("buckets","C10","local iterators of bucket %lu disagree",(unsigned long)b); cl++; } if(q<=n&&!(cl==cx.cend(b))) fail("buckets","C10","local iterators of bucket %lu disagree",(unsigned long)b); }
            for(auto it=cx.begin(b);it!=cx.end(b);++it){
              if(++k>n) fail("buckets","C10","bucket %lu enumerates more elements than size()",(unsigned long)b);
              if(!o.cont.find(&*it)) fail("buckets","C10,C01","bucket %lu enumerates a foreign element",(unsigned long)b);
              if(keyBucket<K,i>(cx,*it)!=b) fail("buckets","C10,C05","element is in bucket %lu, its key belongs in bucket %lu",(unsigned long)b,(unsigned long)keyBucket<K,i>(cx,*it));
            }
            if(k!=cx.bucket_size(b)) fail("buckets","C10","bucket_size(%lu) is %lu, bucket holds %lu",(unsigned long)b,(unsigned long)cx.bucket_size(b),(unsigned long)k);
            tot+=k;
          }
          if(tot!=n) fail("buckets","C10","bucket sizes add up to %lu, size() is %lu",(unsigned long)tot,(unsigned long)n);
          if(n){ size_t j=opno%n; auto it=cx.iterator_to(*v[j]); auto lit=cx.local_iterator_to(*v[j]); if(&*lit!=v[j]||&*it!=v[j]) fail("buckets","C10","local_iterator_to() yields another element"); 
            // every element findable through its own key
            for(size_t q=0;q<n&&q<64;++q){ EP p=v[(j+q)%n]; if(!findOwn<K,i>(cx,*p)) fail("lookup","C10,C05","element not found by its own key in hashed index %d",i); }
          }
        }
      }
      (void)tot;
    }
    if constexpr(kd==K_RND){
      for(size_t j=0;j<n;++j) if(&cx[j]!=v[j]) fail("position","C12,C01","operator[](%lu) differs from the element at that position of the traversal",(unsigned long)j);
      if(cx.capacity()<n) fail("capacity","C12","capacity() %lu is below size() %lu",(unsigned long)cx.capacity(),(unsigned long)n);
      if(n){
        size_t p=(opno*7)%n,q=(opno*13+3)%n; auto b=cx.begin();
        if(&*(b+p)!=v[p]||&b[q]!=v[q]||((b+p)-(b+q))!=(std::ptrdiff_t)p-(std::ptrdiff_t)q||((b+p)<(b+q))!=(p<q)||((b+p)>=(b+q))!=(p>=q)||(cx.end()-(b+p))!=(std::ptrdiff_t)(n-p)) fail("position","C12","iterator arithmetic disagrees with positions");
        if(&cx.at(p)!=v[p]) fail("position","C12","at() differs from operator[]");
        auto w=ix.iterator_to(*v[q]); if(w-ix.begin()!=(std::ptrdiff_t)q) fail("position","C12,C07","iterator_to() is at another position");
      }
      bool thrown=false; try{ cx.at(n); }catch(std::out_of_range&){ thrown=true; }
      if(!thrown) fail("position","C12","at(size()) did not throw");
    }
    if constexpr(isPos(kd)){
      if(n&&(&cx.front()!=v.front()||&cx.back()!=v.back())) fail("position",kd==K_SEQ?"C11":"C12","front()/back() disagree with the traversal");
    }
    // projections and iterator_to
    if(n){
      EP p=v[(opno*5)%n]; auto it=ix.iterator_to(*p);
      if(&*it!=p) fail("projection","C01,C07","iterator_to() yields another element");
      constexpr int j2=(i+1)%K::N;
      auto it2=c.template project<j2>(it); if(&*it2!=p) fail("projection","C01,C07","projection to index %d yields another element",j2);
      auto it3=c.template project<i>(it2); if(!(it3==it)) fail("projection","C01,C07","projecting back yields another iterator");
    }
    { // tags name the same indices
      typedef typename K::template spec<i> TG; const auto& cc=c;
      if((void*)&c.template get<TG>()!=(void*)&ix||(const void*)&cc.template get<TG>()!=(const void*)&cx) fail("projection","C01","get<tag>() is another index than get<n>()");
      auto t1=c.template project<TG>(c.template get<(i+1)%K::N>().end()); auto t2=cc.template project<TG>(cc.template get<(i+1)%K::N>().end());
      if(!(t1==ix.end())||!(t2==cx.end())) fail("projection","C01","end() projects to something else than end()");
      if(n){ auto u1=c.template project<TG>(c.template get<0>().iterator_to(*v[opno%n])); auto u2=cc.template project<TG>(cc.template get<0>().iterator_to(*v[opno%n])); auto u3=cc.template project<i>(cc.template get<0>().iterator_to(*v[opno%n])); if(&*u1!=v[opno%n]||&*u2!=v[opno%n]||!(u3==u2)) fail("projection","C01,C07","projection by tag yields another element"); }
    }
    { constexpr int j2=(i+1)%K::N; auto it2=c.template project<j2>(ix.end()); if(!(it2==c.template get<j2>().end())) fail("projection","C01","end() projects to something else than end()"); }
    // load factor
  }
  template<class K,int i,class IX> static size_t keyBucket(const IX& ix,const Elem& e){ return ix.bucket(ix.key_extractor()(e)); }
  template<class K,int i,class IX> static bool findOwn(const IX& ix,const Elem& e){
    auto r=ix.equal_range(ix.key_extractor()(e)); size_t k=0;
    for(auto it=r.first;it!=r.second;++it){ if(&*it==&e) return true; if(++k>ix.size()) break; }
    return false;
  }

  // room obtained by reserve() is kept until something entitled to give it up
  void checkRoom(u32 code){
    if(code>=C_CLEAR&&code<=C_RECREATE||code>=S_ROUND){ eachSlot([&](auto& s){ for(auto& r:s.room) r.m=0; }); return; }
    eachSlot([&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type::Cfg K; if(!s.c) return;
      withEachIdx<K>([&](auto I){ constexpr int i=decltype(I)::value; auto& r=s.room[i]; if(!r.m) return; if(r.c!=s.c){ r.m=0; return; }
        const auto& ix=s.c->template get<i>();
        if constexpr(K::kinds[i]==K_HASH){ if(s.cont.size()>r.m) r.m=0; else if(ix.bucket_count()!=r.got) fail("buckets","C10","the buckets reserved for %lu elements were rearranged with only %lu elements present",(unsigned long)r.m,(unsigned long)s.cont.size()); }
        if constexpr(K::kinds[i]==K_RND){ if(ix.capacity()<r.m) fail("capacity","C12","capacity() fell below what was reserved"); }
      }); });
  }
  // whole-world accounting
  void checkGlobal(){
    u64 expect=0; u32 users[512]={0};
    eachSlot([&](auto& s){ if(s.c){ expect+=s.c->size(); ++users[s.c->get_allocator().id&511]; } });
    for(auto& h:nh) if(!h.h.empty()){ ++expect; ++users[h.h.get_allocator().id&511]; }
    if(g_liveElems!=expect) fail(g_liveElems>expect?"element-leak":"element-lost","C06,C13,C14,C16","%lu element objects alive in container memory, containers and handles own %lu",(unsigned long)g_liveElems,(unsigned long)expect);
    for(auto& kv:arena.live) if(kv.second&&!users[kv.first&511]) fail("memory-leak","C06,C13,C14,C16","%lu blocks of allocator %u in use although no container or handle uses it",(unsigned long)kv.second,kv.first);
    u64 bound=0; eachSlot([&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; if(s.c) bound+=s.c->size()+1+S::Cfg::N; }); for(auto& h:nh) if(!h.h.empty()) ++bound;
    if(arena.liveTotal>bound) fail("memory-leak","C06,C13,C14,C16","%lu blocks in use, containers account for at most %lu",(unsigned long)arena.liveTotal,(unsigned long)bound);
  }
  // nodes must come from their container's allocator: releasing everything checks it; here by block ownership
  template<class K> void checkAlloc(Slot<K>&){}

  template<class K> void adopt(Slot<K>& s,Obs<K>& o){ s.ord.swap(o.ord); std::swap(s.cont,o.cont); }

  //------------------------------------------------------------ expectations
  template<class K> void wantSame(Slot<K>& s,Want& w){
    w.cont=s.cont; w.mode.assign(K::N,M_EXACT); w.seq=s.ord; w.moved.clear(); w.tokens=0;
    for(int i=0;i<K::N;++i) if(K::kinds[i]==K_HASH) w.mode[i]=M_STABLE;
  }
  template<class K> std::vector<EP> conflicts(Slot<K>& s,const Want& w,const Content& c,EP except){
    std::vector<EP> r;
    for(int i=0;i<K::N;++i) if(K::uniqs[i]) for(auto& e:w.cont.v) if(e.p!=except&&equiv(s.st[i],e.c,c)) r.push_back(e.p);
    return r;
  }
  static const Content& cOf(const Want& w,EP p){ return w.cont.find(p)->c; }
  // insert element p with content c: via index vi (-1: none special) at position pos (positional), hinted if hint>=0
  template<class K> void wantAdd(Slot<K>& s,Want& w,EP p,const Content& c,u64 birth,int vi,int pos,bool anyEq){
    for(int i=0;i<K::N;++i){
      Kind kd=K::kinds[i]; Seq& v=w.seq[i];
      if(kd==K_HASH){ w.moved.insert(p); continue; }
      if(isPos(kd)){ if(i==vi) v.insert(v.begin()+pos,p); else v.push_back(p); continue; }
      size_t lo=0; while(lo<v.size()&&cmp3(s.st[i],cOf(w,v[lo]),c)<0) ++lo;
      size_t hi=lo; while(hi<v.size()&&cmp3(s.st[i],cOf(w,v[hi]),c)==0) ++hi;
      size_t at=hi;
      if(anyEq&&hi>lo){ if(i==vi&&pos>=0) at=std::min(std::max((size_t)pos,lo),hi); else { w.mode[i]=M_STABLE; w.moved.insert(p); } }
      v.insert(v.begin()+at,p);
    }
    w.cont.add(Ent{p,c,birth});
  }
  template<class K> EP wantNew(Slot<K>& s,Want& w,const Content& c,int vi,int pos,bool anyEq){
    EP t=(EP)(uintptr_t)(16+16*w.tokens++); wantAdd(s,w,t,c,0,vi,pos,anyEq); return t;
  }
  template<class K> void wantDel(Slot<K>&,Want& w,EP p){
    w.cont.del(p); for(auto& v:w.seq) v.erase(std::remove(v.begin(),v.end(),p),v.end());
  }
  // update of p's content in place
  template<class K> void wantUpdate(Slot<K>& s,Want& w,EP p,const Content& c){
    Content old=cOf(w,p); Ent e=*w.cont.find(p); e.c=c; w.cont.del(p); w.cont.add(e);
    for(int i=0;i<K::N;++i){
      Kind kd=K::kinds[i];
      if(isPos(kd)) continue;
      if(equiv(s.st[i],old,c)){ if(kd==K_HASH) w.hexact|=1u<<i; continue; }                 // keeps its position
      w.mode[i]=M_STABLE; w.moved.insert(p);
      // note: moved is shared by all indices; equivalent-key indices are EXACT anyway
    }
  }

  template<class K> void judge(Slot<K>& s,const Obs<K>& o,Want& w,const char* tags){
    // bind tokens
    if(w.tokens){
      std::map<EP,EP> bind;
      if(o.cont.size()!=w.cont.size()) badset(s,o,w,tags);
      for(int i=0;i<K::N;++i) if(w.mode[i]==M_EXACT) for(size_t j=0;j<w.seq[i].size()&&j<o.ord[i].size();++j) if(isToken(w.seq[i][j])){
        EP t=w.seq[i][j],a=o.ord[i][j];
        if(!bind.count(t)&&!w.cont.find(a)&&a->c==cOf(w,t)){ bool used=false; for(auto& b:bind) if(b.second==a) used=true; if(!used) bind[t]=a; }
      }
      for(u32 t=0;t<w.tokens;++t){ EP tk=(EP)(uintptr_t)(16+16*t); const Ent* e=w.cont.find(tk); if(!e||bind.count(tk)) continue;
        for(auto& x:o.cont.v) if(!w.cont.find(x.p)&&x.c==e->c){ bool used=false; for(auto& b:bind) if(b.second==x.p) used=true; if(!used){ bind[tk]=x.p; break; } } 
        if(!bind.count(tk)) badset(s,o,w,tags);
      }
      for(auto& v:w.seq) for(auto& p:v) if(isToken(p)&&bind.count(p)) p=bind[p];
      Cont nc; for(auto& e:w.cont.v){ Ent x=e; if(isToken(x.p)&&bind.count(x.p)){ x.p=bind[x.p]; x.birth=0; } nc.v.push_back(x); } nc.sort(); w.cont=nc;
      std::set<EP> mv; for(EP p:w.moved) mv.insert(isToken(p)&&bind.count(p)?bind[p]:p); w.moved=mv;
    }
    if(o.cont.size()!=w.cont.size()) badset(s,o,w,tags);
    for(size_t j=0;j<w.cont.v.size();++j){
      const Ent &x=w.cont.v[j],&y=o.cont.v[j];
      if(x.p!=y.p) badset(s,o,w,tags);
      if(x.birth&&x.birth!=y.birth) fail("object-replaced",(std::string("C07,")+tags).c_str(),"an element was destroyed and recreated at the same address");
      if(x.c!=y.c) fail("content",(std::string("C07,")+tags).c_str(),"an element's value is not the expected one");
    }
    for(int i=0;i<K::N;++i){
      std::string tg=tagsI<K>(i,tags);
      if(w.mode[i]==M_EXACT){
        if(K::kinds[i]==K_HASH) continue;
        for(size_t j=0;j<w.seq[i].size();++j) if(w.seq[i][j]!=o.ord[i][j]) fail("order",tg.c_str(),"index %d: position %lu does not hold the expected element",i,(unsigned long)j);
      }
      else if(w.mode[i]==M_STABLE){
        if(K::kinds[i]==K_HASH){
          if(((w.hexact>>i)&1)&&s.ord[i]!=o.ord[i]) fail("order",(std::string("C05,")+tg).c_str(),"hashed index %d: updating an element without changing its key changed the enumeration",i);
          // relative order inside each group of equivalents
          std::map<std::vector<int>,Seq> ga,gb;
          auto key=[&](const Content& c){ std::vector<int> q; for(auto& cp:s.st[i].c) q.push_back(norm(c.k[cp.f],cp.div)); return q; };
          for(EP p:s.ord[i]){ const Ent* e=w.cont.find(p); const Ent* e0=s.cont.find(p); if(e&&e0&&e->birth==e0->birth&&!w.moved.count(p)) ga[key(e->c)].push_back(p); }
          for(EP p:o.ord[i]){ const Ent* e0=s.cont.find(p); const Ent* e=w.cont.find(p); if(e0&&e&&e->birth==e0->birth&&!w.moved.count(p)) gb[key(e->c)].push_back(p); }
          if(ga!=gb) fail("order",tg.c_str(),"hashed index %d: relative order of equivalent elements changed",i);
        }
        else{
          Seq a,b; for(EP p:s.ord[i]) if(w.cont.find(p)&&!w.moved.count(p)) a.push_back(p);
          for(EP p:o.ord[i]) if(s.cont.find(p)&&!w.moved.count(p)) b.push_back(p);
          if(a!=b) fail("order",tg.c_str(),"index %d: relative order of untouched elements changed",i);
        }
      }
    }
  }
  template<class K> [[noreturn]] void badset(Slot<K>&,const Obs<K>& o,const Want& w,const char* tags){
    size_t extra=0,missing=0; for(auto& x:o.cont.v) if(!w.cont.find(x.p)) ++extra; for(auto& x:w.cont.v) if(!o.cont.find(x.p)) ++missing;
    fail("elements",tags,"container holds %lu elements, expected %lu (%lu unexpected, %lu missing)",(unsigned long)o.cont.size(),(unsigned long)w.cont.size(),(unsigned long)extra,(unsigned long)missing);
  }
  template<class K> void judgeSame(Slot<K>& s,const char* tags){ Obs<K> o; observe(s,o); Want w; wantSame(s,w); judge(s,o,w,tags); adopt(s,o); }

  // after a multi-element operation cut short: keep all except mayLose; additional elements only from 'news' (contents) or 'inc' (objects)
  template<class K> void judgeBasic(Slot<K>& s,Obs<K>& o,const std::set<EP>& mayLose,std::vector<Content> news,const std::set<EP>& incoming,u32 freeMask,const char* tags){
    for(auto& e:s.cont.v){
      const Ent* x=o.cont.find(e.p);
      if(!x||x->birth!=e.birth){ if(!mayLose.count(e.p)) fail("element-lost",tags,"an operation cut short lost an element it was not entitled to remove"); }
      else if(x->c!=e.c) fail("content",tags,"an operation cut short altered an element");
    }
    for(auto& e:o.cont.v){
      const Ent* x=s.cont.find(e.p); if(x&&x->birth==e.birth) continue;
      if(incoming.count(e.p)) continue;
      auto it=std::find(news.begin(),news.end(),e.c);
      if(it==news.end()) fail("element-extra",tags,"an operation cut short left an element that is not in its input");
      news.erase(it);
    }
    for(int i=0;i<K::N;++i){
      if((freeMask>>i)&1) continue;
      if(K::kinds[i]==K_HASH) continue;
      Seq a,b; for(EP p:s.ord[i]){ const Ent* x=o.cont.find(p); if(x&&x->birth==s.cont.find(p)->birth) a.push_back(p); }
      for(EP p:o.ord[i]){ const Ent* x=s.cont.find(p); if(x&&x->birth==o.cont.find(p)->birth) b.push_back(p); }
      if(a!=b) fail("order",tagsI<K>(i,tags).c_str(),"index %d: an operation cut short changed the relative order of untouched elements",i);
    }
  }

  //------------------------------------------------------------ helpers for operations
  u32 patN=0;
  Content mkContent(u32 x){
    Content c; c.id=nextId++;
    if(kn.pat&&(x>>5)%16){                    // monotone or converging keys: the histories that unbalance a tree not rebalanced properly
      u32 t=patN++; int v=0;
      switch(kn.pat){ case 1: v=(int)(t%1024); break; case 2: v=1023-(int)(t%1024); break; case 3: v=t&1?1023-(int)(t/2%512):(int)(t/2%512); break; default: v=t&1?512+(int)(t/2%512):511-(int)(t/2%512); }
      for(int i=0;i<4;++i) c.k[i]=v;
    }
    else for(int i=0;i<4;++i) c.k[i]=kn.dom[i]>256?(int)(mix64(x,i)%kn.dom[i]):(int)(((x>>(8*i))&255)%kn.dom[i]);
    return c;
  }
  template<class K,int I> auto itAt(Slot<K>& s,size_t pos){ auto& ix=s.c->template get<I>(); if(pos>=s.ord[I].size()) return ix.end(); return ix.iterator_to(*s.ord[I][pos]); }
  template<class It,class IX> static EP epOf(It it,const IX& ix){ Disarm d; return it==ix.end()?nullptr:&*it; }
  template<class K,int I,class It> EP ep(Slot<K>& s,const It& it){ Disarm d; const auto& ix=s.c->template get<I>(); typename std::remove_reference<decltype(ix)>::type::const_iterator ci=it; if(ci==ix.end()) return nullptr; return &*ci; }
  std::string dumpOp(){ if(!cur) return "?"; std::string r=op_name[cur->code]; for(int i=0;i<8;++i) r+=fmt(" %u",cur->a[i]); r+=fmt(" f=%x/%u/%u/%u",cur->fmask,cur->fn,cur->fn2,cur->sticky); return r; }

  // result iterator of an insertion
  template<class K> void checkVeto(Slot<K>& s,EP ret,const std::vector<EP>& conf,bool hasRet){
    ++g.st.ops_vetoed;
    if(hasRet){ if(std::find(conf.begin(),conf.end(),ret)==conf.end()) fail("veto-culprit","C02","a refused insertion reports an element that does not conflict"); }
  }

#include "ops_key.hpp"
#include "ops_pos.hpp"
#include "ops_cont.hpp"
#include "ops_iter.hpp"
#ifdef SIM_SER
#include "ops_ser.hpp"
#endif

  //------------------------------------------------------------ run
  void exec(const Op& op){
    cur=&op; planUsed=false; ++opno; g_optags=""; g_faulttags=""; g.fired=0;
    g.where=fmt("op %u: ",opno)+dumpOp();
    ++g.st.ops; logv(op.code);
    step(op);
    g_optags=""; 
    checkGlobal();
    checkIters();
    checkRoom(op.code);
    cur=nullptr;
  }
  void step(const Op& op);
  void setup(const Knobs& k){
    kn=k; g.budget=4000000+10*k.maxn*k.maxn; Rng r(k.vary*2654435761u+17);
    u32 i=0;
    eachSlot([&](auto& s){ s.sid=i; u32 sd=(u32)r.next(),al=allocFor(r); std::vector<Content> cs; if(kn.fill&&r.chance(2,3)) cs=manyContents((u32)r.next(),r.below(kn.fill+1)); create(s,sd,al,cs.size()?&cs:nullptr); ++i; });
  }
  u32 allocFor(Rng& r){ u32 a=1+r.below(kn.nalloc); return POL&POL_AEQ?1:a; }
  void teardown(){
    cur=nullptr; g_optags=""; g_faulttags="";
    g.where="teardown";
    its.clear();
    Rng r(kn.vary+opno);
    // release in seeded order
    std::vector<int> o; for(int i=0;i<NS+NH;++i) o.push_back(i); for(size_t i=o.size();i>1;--i) std::swap(o[i-1],o[r.below(i)]);
    for(int x:o){ if(x<NS) withSlot(x,[&](auto& s){ destroy(s); }); else { hClear(nh[x-NS]); } checkGlobal(); }
    if(g_liveElems) fail("element-leak","C06","%lu elements alive after everything was destroyed",(unsigned long)g_liveElems);
    if(arena.liveTotal) fail("memory-leak","C06","%lu blocks in use after everything was destroyed",(unsigned long)arena.liveTotal);
  }
};

} // namespace sim
#include "step.hpp"
#endif
