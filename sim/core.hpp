// Deterministic simulator core: PRNG, fault engine, simulated heap, element
// type and user functors.  Nothing here reads a clock, an address that depends
// on the environment, or any randomness other than the run's own seed.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <new>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <utility>
#include <type_traits>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>

#ifdef SIM_SER
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/access.hpp>
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a,b) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a,b) ((void)0)
#endif

namespace sim{

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

//---------------------------------------------------------------- PRNG
struct Rng{
  u64 s;
  explicit Rng(u64 seed=0):s(seed){}
  u64 next(){ u64 z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  u32 below(u32 n){ return n? (u32)(next()%n):0; }
  bool chance(u32 num,u32 den){ return below(den)<num; }
  u32 range(u32 a,u32 b){ return a+below(b-a+1); }
};
inline u64 mix64(u64 a,u64 b){ Rng r(a*0x2545F4914F6CDD1Dull+b); r.next(); return r.next(); }

//---------------------------------------------------------------- faults
enum FK{F_ALLOC,F_CTOR,F_ASSIGN,F_CMP,F_HASH,F_EQ,F_KEY,F_MOD,F_BACK,F_PRED,F_ITER,F_NEW,F_IO,F_SER,F_BIG,F_NK};
static const char* const fk_name[F_NK]={"allocation","element_construction","element_assignment","key_comparison","hashing","key_equality","key_extraction","modifier","rollback","predicate","input_iterator","scratch_memory_denied","stream_io","element_serialization","oversized_request"};

struct Fault{ int kind; };               // thrown by user operations
struct FaultBig:std::bad_alloc{};        // thrown by allocators for more memory than the simulated machine has
struct FaultAlloc:std::bad_alloc{};      // thrown by allocators

struct Stats{
  u64 runs=0,ops=0,points=0,ops_faulted=0,ops_threw=0,ops_vetoed=0;
  u64 fired[F_NK]={0};
  u64 probes[64]={0};
  std::map<std::string,u64> opcount;
};

struct G{
  u64 log=0;                 // rolling hash of everything observed
  bool armed=false;          // inside a call into the library
  u32 mask=0,nth=0,nth2=0; bool sticky=false;
  u32 count=0,count2=0,fired=0,firedKind=0,lastFiredAt=0;
  bool countAfter=false; u32 eventsAfterMark=0;
  u32 opPoints=0;            // all points in this op
  u32 maskPoints[F_NK]={0};
  u32 budget=4000000;
  u32 cmps=0;
  Stats st;
  std::string where;         // current op description
};
extern G g;
extern std::string g_failctx;
[[noreturn]] void fail(const char* cls,const char* tags,const char* fmt,...) __attribute__((cold,noinline));

inline void logv(u64 v){ g.log=(g.log^v)*0x100000001B3ull; g.log^=g.log>>29; }

inline void point(FK k){
  if(!g.armed) return;
  ++g.opPoints; ++g.maskPoints[k];
  logv(0x1000+k);
  if(g.opPoints>g.budget) fail("no-progress","*","operation performed more than %u user calls",g.budget);
  if(g.countAfter) ++g.eventsAfterMark;
  if(!((g.mask>>k)&1)) return;
  ++g.count;
  bool fire=false;
  if(g.fired==0){ if(g.nth&&g.count==g.nth) fire=true; }
  else{
    ++g.count2;
    if(g.fired==1&&g.nth2&&g.count2==g.nth2) fire=true;
    else if(g.sticky&&k==F_ALLOC) fire=true;
  }
  if(fire){
    ++g.fired; g.firedKind=k; g.lastFiredAt=g.opPoints; ++g.st.fired[k]; logv(0x2000+k);
    if(k==F_ALLOC) throw FaultAlloc();
    throw Fault{(int)k};
  }
}
// a point that reports instead of throwing (scratch memory denial)
inline bool point_deny(FK k){
  if(!g.armed) return false;
  ++g.opPoints; ++g.maskPoints[k];
  logv(0x1000+k);
  if(!((g.mask>>k)&1)) return false;
  ++g.count;
  // denial of scratch memory is decided independently of the throwing faults
  if(g.nth&&(g.nth%2)){ ++g.st.fired[k]; logv(0x2000+k); return true; }
  return false;
}

struct Arm{ bool p; Arm():p(g.armed){g.armed=true;} ~Arm(){g.armed=p;} };
struct Disarm{ bool p; Disarm():p(g.armed){g.armed=false;} ~Disarm(){g.armed=p;} };

//---------------------------------------------------------------- simulated heap
struct Arena{
  char* base=nullptr; size_t cap=0; size_t top=0; bool reuse=false;
  struct Hdr{ u32 magic; u32 id; u64 size; };       // 16 bytes before each block
  static const u32 LIVE=0xA110CA7E,DEAD=0xF4EEF4EE;
  std::map<size_t,std::vector<char*>> freel;
  std::map<u32,u64> live;       // blocks per allocator id
  u64 liveTotal=0,allocs=0;
  void init(){
    if(base) return;
    cap=size_t(256)<<20;
    void* want=(void*)0x10007fff0000ull;
    for(int i=0;i<2&&!base;++i){
      void* p=mmap(i==0?want:nullptr,cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|(i==0?MAP_FIXED_NOREPLACE:0),-1,0);
      if(p!=MAP_FAILED) base=(char*)p;
    }
    if(!base){ fprintf(stderr,"arena mmap failed\n"); _exit(70); }
    ASAN_POISON_MEMORY_REGION(base,cap);
  }
  void reset(bool reuse_){
    init();
    if(top){ ASAN_POISON_MEMORY_REGION(base,top); }
    top=0; reuse=reuse_; freel.clear(); live.clear(); liveTotal=0; allocs=0;
  }
  bool contains(const void* p)const{ return (const char*)p>=base&&(const char*)p<base+cap; }
  void* alloc(size_t n,u32 id){
    size_t sz=(n+15)&~size_t(15); if(!sz) sz=16;
    char* p=nullptr;
    if(reuse){ auto it=freel.find(sz); if(it!=freel.end()&&!it->second.empty()){ p=it->second.back(); it->second.pop_back(); } }
    if(!p){
      if(top+sz+48>cap) throw std::bad_alloc();
      p=base+top+16; top+=16+sz+16;
      ASAN_UNPOISON_MEMORY_REGION(p-16,16);
    }
    Hdr* h=(Hdr*)(p-16); h->magic=LIVE; h->id=id; h->size=n;
    ASAN_UNPOISON_MEMORY_REGION(p,n);
    memset(p,0xCB,n);
    ++live[id]; ++liveTotal; ++allocs;
    return p;
  }
  void dealloc(void* q,size_t n,u32 id){
    char* p=(char*)q;
    if(!contains(p)||((uintptr_t)p&15)) fail("bad-free","C06","deallocate of a pointer never allocated");
    Hdr* h=(Hdr*)(p-16);
    if((size_t)(p-base)>=top) fail("bad-free","C06","deallocate of a pointer never allocated");
    if(h->magic==DEAD) fail("double-free","C06,C04,C03,C05,C13,C14,C16","block released twice");
    if(h->magic!=LIVE) fail("bad-free","C06","deallocate of a pointer never allocated");
    if(h->id!=id) fail("wrong-allocator","C06,C14,C13","block of allocator %u released through allocator %u",h->id,id);
    if(h->size!=n) fail("wrong-size","C06,C14","block of %lu bytes released as %lu bytes",(unsigned long)h->size,(unsigned long)n);
    h->magic=DEAD;
    memset(p,0xDD,n);
    ASAN_POISON_MEMORY_REGION(p,n);
    --live[id]; --liveTotal;
    if(reuse){ size_t sz=(n+15)&~size_t(15); if(!sz)sz=16; freel[sz].push_back(p); }
  }
  u64 liveOf(u32 id)const{ auto it=live.find(id); return it==live.end()?0:it->second; }
  u64 off(const void* p)const{ return contains(p)?(u64)((const char*)p-base)+1:0; }
};
extern Arena arena;

// id of the allocator owning the block that contains p, by scanning is costly; nodes are block starts
//---------------------------------------------------------------- allocator
enum{ POL_CCA=1,POL_CMA=2,POL_SWAP=4,POL_SOCCC=8,POL_FANCY=16,POL_AEQ=32 };

// minimal fancy pointer: a class, made from raw pointers but not convertible to them
template<class T> class FPtr{
  T* p;
public:
  typedef std::ptrdiff_t difference_type; typedef T value_type; typedef T* pointer; typedef T& reference; typedef std::random_access_iterator_tag iterator_category;
  FPtr(){}
  FPtr(T* q):p(q){}             // (as boost::interprocess::offset_ptr has)
  template<class U,class=typename std::enable_if<std::is_convertible<U*,T*>::value>::type> FPtr(const FPtr<U>& x):p(x.raw()){}
  T* raw()const{ return p; }
  explicit operator bool()const{ return p!=nullptr; }
  T& operator*()const{ if(!p) fail("null-pointer","C06","a null pointer of the allocator was dereferenced"); return *p; }
  T* operator->()const{ return p; }
  FPtr& operator++(){ ++p; return *this; } FPtr operator++(int){ FPtr t(*this); ++p; return t; }
  FPtr& operator--(){ --p; return *this; } FPtr operator--(int){ FPtr t(*this); --p; return t; }
  FPtr& operator+=(std::ptrdiff_t n){ p+=n; return *this; } FPtr& operator-=(std::ptrdiff_t n){ p-=n; return *this; }
  T& operator[](std::ptrdiff_t n)const{ return p[n]; }
  friend FPtr operator+(const FPtr& x,std::ptrdiff_t n){ return FPtr(x.p+n); }
  friend FPtr operator+(std::ptrdiff_t n,const FPtr& x){ return FPtr(x.p+n); }
  friend FPtr operator-(const FPtr& x,std::ptrdiff_t n){ return FPtr(x.p-n); }
  friend std::ptrdiff_t operator-(const FPtr& x,const FPtr& y){ return x.p-y.p; }
  friend bool operator==(const FPtr& x,const FPtr& y){ return x.p==y.p; }
  friend bool operator!=(const FPtr& x,const FPtr& y){ return x.p!=y.p; }
  friend bool operator<(const FPtr& x,const FPtr& y){ return x.p<y.p; }
  friend bool operator>(const FPtr& x,const FPtr& y){ return x.p>y.p; }
  friend bool operator<=(const FPtr& x,const FPtr& y){ return x.p<=y.p; }
  friend bool operator>=(const FPtr& x,const FPtr& y){ return x.p>=y.p; }
};
template<class T,int POL,bool FANCY> struct PtrTypes{ typedef T* pointer; };
template<class T,int POL> struct PtrTypes<T,POL,true>{ typedef FPtr<T> pointer; typedef FPtr<const T> const_pointer; typedef void* void_pointer; typedef const void* const_void_pointer; };
template<class P> inline auto rawp(const P& p)->decltype(p.raw()){ return p.raw(); }
template<class T> inline T* rawp(T* p){ return p; }
template<class T,int POL> struct SimAlloc:PtrTypes<T,POL,(POL&POL_FANCY)!=0>{
  typedef T value_type; typedef typename PtrTypes<T,POL,(POL&POL_FANCY)!=0>::pointer pointer;
  typedef std::integral_constant<bool,(POL&POL_CCA)!=0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool,(POL&POL_CMA)!=0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool,(POL&POL_SWAP)!=0> propagate_on_container_swap;
  typedef std::integral_constant<bool,(POL&POL_AEQ)!=0> is_always_equal;
  template<class U> struct rebind{ typedef SimAlloc<U,POL> other; };
  u32 id;
  SimAlloc(u32 i=1):id(POL&POL_AEQ?1:i){}
  SimAlloc(const SimAlloc& x):PtrTypes<T,POL,(POL&POL_FANCY)!=0>(),id(x.id){ check(); }
  template<class U> SimAlloc(const SimAlloc<U,POL>& x):id(x.id){ check(); }
  SimAlloc& operator=(const SimAlloc& x){ x.check(); id=x.id; return *this; }
  ~SimAlloc(){ id=0xDEAD; }
  void check()const{ if(id==0xDEAD) fail("dead-allocator","C06,C13,C14","a destroyed allocator object was used"); }
  pointer allocate(size_t n){
    check();
    point(F_ALLOC);
    if(n>(size_t(1)<<24)/sizeof(T)+1){ ++g.st.fired[F_BIG]; logv(0x2000+F_BIG); throw FaultBig(); }
    return pointer(static_cast<T*>(arena.alloc(n*sizeof(T),id)));
  }
  void deallocate(pointer p,size_t n){ check(); arena.dealloc(rawp(p),n*sizeof(T),id); }
  SimAlloc select_on_container_copy_construction()const{ SimAlloc r(*this); if(POL&POL_SOCCC) r.id=id<100?id+100:id; return r; }
  friend bool operator==(const SimAlloc& a,const SimAlloc& b){ return a.id==b.id; }
  friend bool operator!=(const SimAlloc& a,const SimAlloc& b){ return a.id!=b.id; }
};

//---------------------------------------------------------------- element
struct Content{
  int k[4]; u32 id;
  bool operator==(const Content& o)const{ return id==o.id&&!memcmp(k,o.k,sizeof k); }
  bool operator!=(const Content& o)const{ return !(*this==o); }
};
extern u64 g_births;
extern u64 g_liveElems;    // live elements inside the simulated heap
extern u64 g_outElems;     // live elements elsewhere (temporaries and the simulator's own)

struct Src{ Content c; };  // an element of an input range that is not itself an element

struct Elem{
  static const u32 ALIVE=0xE1E3A11F,GONE=0xDEADE1E3;
  u32 magic; Content c; u64 birth;
  void born(){ magic=ALIVE; birth=++g_births; ++(arena.contains(this)?g_liveElems:g_outElems); }
  const Elem& chk(const char* what="used")const{
    if(magic!=ALIVE) fail("dead-element","C06,C03,C04,C05,C07,C13,C14,C16","an element object was %s %s",what,magic==GONE?"after its destruction":"without having been constructed");
    return *this;
  }
  Elem():c{{0,0,0,0},0}{ point(F_CTOR); c=defContent(); born(); }
  explicit Elem(const Content& x):c(x){ point(F_CTOR); born(); }
  explicit Elem(const Src& x):c(x.c){ point(F_CTOR); born(); }
  Elem(int v):c(intContent(v)){ point(F_CTOR); born(); }
  Elem(const Elem& x):c(x.chk("copied").c){ point(F_CTOR); born(); }
  Elem(Elem&& x):c(x.chk("moved").c){ point(F_CTOR); x.scramble(); born(); }
  Elem& operator=(const Elem& x){ chk("assigned to"); x.chk("copied"); point(F_ASSIGN); c=x.c; return *this; }
  Elem& operator=(Elem&& x){ chk("assigned to"); x.chk("moved"); point(F_ASSIGN); if(this!=&x){ c=x.c; x.scramble(); } return *this; }
  ~Elem(){
    if(magic!=ALIVE) fail("double-destroy","C06,C03,C04,C05,C13,C14,C16","an element was destroyed %s",magic==GONE?"twice":"without having been constructed");
    magic=GONE; --(arena.contains(this)?g_liveElems:g_outElems);
  }
  static const u32 MOVED=0xFFFFFFFF;
#ifdef SIM_SER
  // serialization: the stored checksum lets a load recognise an incomplete element
  u32 sum()const{ u32 h=c.id*2654435761u; for(int i=0;i<4;++i) h=h*31+(u32)c.k[i]; return h; }
  template<class Ar> void serialize(Ar& ar,const unsigned){
    point(F_SER); chk("archived");
    u32 cs=sum();
    ar & boost::serialization::make_nvp("k0",c.k[0]) & boost::serialization::make_nvp("k1",c.k[1]) & boost::serialization::make_nvp("k2",c.k[2]) & boost::serialization::make_nvp("k3",c.k[3]);
    point(F_SER);
    ar & boost::serialization::make_nvp("id",c.id) & boost::serialization::make_nvp("sum",cs);
    if(cs!=sum()) fail("damaged-element","C15,C16","an element was restored with another value than was saved");
  }
#endif
  void scramble(){ u32 h=c.id*2654435761u; for(int i=0;i<4;++i) c.k[i]=-1-(int)((h>>(i*4))&7); c.id=MOVED; }
  static Content intContent(int v){ return Content{{v,v,v,v},0xC0000000u+(u32)v}; }
  static Content defContent(){ return Content{{0,0,0,0},0xD0}; }
};
inline bool elem_less(const Content& a,const Content& b){ return a.k[0]!=b.k[0]?a.k[0]<b.k[0]:a.k[1]<b.k[1]; }
inline bool elem_eq(const Content& a,const Content& b){ return a.k[0]==b.k[0]&&a.k[1]==b.k[1]; }
inline bool operator<(const Elem& a,const Elem& b){ point(F_PRED); a.chk("compared"); b.chk("compared"); return elem_less(a.c,b.c); }
inline bool operator==(const Elem& a,const Elem& b){ point(F_PRED); a.chk("compared"); b.chk("compared"); return elem_eq(a.c,b.c); }
inline bool operator!=(const Elem& a,const Elem& b){ return !(a==b); }
inline bool operator>(const Elem& a,const Elem& b){ return b<a; }
inline bool operator<=(const Elem& a,const Elem& b){ return !(b<a); }
inline bool operator>=(const Elem& a,const Elem& b){ return !(a<b); }

//---------------------------------------------------------------- functors (all stateful)
struct Comp{ int f; int dir; int div; bool operator==(const Comp&o)const{return f==o.f&&dir==o.dir&&div==o.div;} };  // one key component
struct IdxState{ std::vector<Comp> c; int hmode=0; };

inline int norm(int v,int div){ return v>=0? v/div: -((-v+div-1)/div); }

template<int F> struct Key{
  typedef int result_type;
  int f;
  Key():f(F){}
  explicit Key(int f_):f(f_){}
  const int& operator()(const Elem& e)const{ point(F_KEY); return e.chk("examined").c.k[f]; }
  int& operator()(Elem& e)const{ point(F_KEY); e.chk("examined"); return e.c.k[f]; }
};
struct CKey{ int v; };      // heterogeneous key, same granularity
struct AsInt{ int v; operator int()const{ point(F_KEY); return v; } };   // merely convertible to the key
struct Coarse{ int v; };    // heterogeneous key, half granularity
struct Cmp{
  int dir,div;
  Cmp():dir(1),div(1){}
  Cmp(int d,int v):dir(d),div(v){}
  bool lt(int a,int b)const{ point(F_CMP); if(g.armed)++g.cmps; a=norm(a,div); b=norm(b,div); return dir>0?a<b:b<a; }
  bool operator()(int a,int b)const{ return lt(a,b); }
  bool operator()(int a,CKey b)const{ return lt(a,b.v); }
  bool operator()(CKey a,int b)const{ return lt(a.v,b); }
};
struct CmpCoarse{
  int dir,div;
  bool lt(int a,int b)const{ point(F_CMP); if(g.armed)++g.cmps; return dir>0?a<b:b<a; }
  bool operator()(int a,Coarse b)const{ return lt(norm(a,div*2),b.v); }
  bool operator()(Coarse a,int b)const{ return lt(a.v,norm(b,div*2)); }
};
struct Hash{
  int mode,div;
  Hash():mode(0),div(1){}
  Hash(int m,int d):mode(m),div(d){}
  size_t h(int a)const{
    point(F_HASH);
    a=norm(a,div);
    switch(mode){ case 0: return (size_t)a*2654435761u; case 1: return 7; case 2: return (size_t)((unsigned)a%3); default: return (size_t)a<<8; }
  }
  size_t operator()(int a)const{ return h(a); }
  size_t operator()(CKey a)const{ return h(a.v); }
};
struct Eq{
  int div;
  Eq():div(1){}
  explicit Eq(int d):div(d){}
  bool e(int a,int b)const{ point(F_EQ); return norm(a,div)==norm(b,div); }
  bool operator()(int a,int b)const{ return e(a,b); }
  bool operator()(int a,CKey b)const{ return e(a,b.v); }
  bool operator()(CKey a,int b)const{ return e(a.v,b); }
};

} // namespace sim
#endif
