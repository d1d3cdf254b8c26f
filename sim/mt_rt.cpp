// Not instrumented.  See mt_rt.hpp.
#include "mt_rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <pthread.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <cxxabi.h>
namespace mt{
Counters cnt; u8* bitmap=nullptr; u32 bitmapBytes=0;
//------------------------------------------------------------ heap
static char* g_base=nullptr; static const size_t CAP=256u<<20; static size_t g_top=0; static bool g_in=false,g_out=false; static u64 g_live=0;
struct Hdr{ u32 magic,size; Hdr* next; };
static const u32 LIVE=0xA110CA7E,DEAD=0xF4EEF4EE;
static Hdr* g_free[512];
static void range_alloc(void*,size_t); static void range_free(void*,size_t);
void heap_begin(){
  if(!g_base){ g_base=(char*)mmap((void*)0x510000000000ull,CAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(g_base==(char*)MAP_FAILED) abort(); }
  g_top=0; g_live=0; memset(g_free,0,sizeof g_free); g_in=true;
}
void heap_end(){ g_in=false; }
u64 heap_live(){ return g_live; }
void out_of_run(bool b){ g_out=b; }
static void* hnew(size_t n){
  if(!g_in||g_out){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
  size_t c=(n+15)/16; if(c==0) c=1; Hdr* h;
  if(c<512&&g_free[c]){ h=g_free[c]; g_free[c]=h->next; }
  else{ if(g_top+c*16+16>CAP) throw std::bad_alloc(); h=(Hdr*)(g_base+g_top); g_top+=c*16+16; }
  h->magic=LIVE; h->size=(u32)(c*16); h->next=nullptr; ++g_live;
  char* p=(char*)h+16; memset(p,0xCB,c*16); range_alloc(p,c*16);
  return p;
}
static void hdel(void* p){
  if(!p) return;
  if((char*)p<g_base||(char*)p>=g_base+CAP||!g_base){ free(p); return; }
  Hdr* h=(Hdr*)((char*)p-16);
  if(h->magic==DEAD) mt_fail("double-free","a block was released twice");
  if(h->magic!=LIVE) mt_fail("bad-free","release of something never allocated");
  range_free(p,h->size);
  h->magic=DEAD; --g_live; memset(p,0xDD,h->size); size_t c=h->size/16; if(c<512){ h->next=g_free[c]; g_free[c]=h; }
}
//------------------------------------------------------------ threads
enum St{IDLE,READY,BLOCKED,DONE};
struct Th{
  St st; void* sp; char* stack; u64 step; u32 vc[MAXT]; void* waits; u32 op; u64 eh[2]; void(*f)(int); u32 prio;
  u32 fn,fa,tk,ta; bool fired; u32 nextSw;
};
static Th th[MAXT]; static int g_n=0,cur=-1; static void* main_sp; static bool active=false;
static u32 clockBase=0; static u64 steps=0,g_hash=0;
static Plan plan; static bool replaying=false; static u64 rs=1;
static Sw* sws=nullptr; static size_t nsw=0,capsw=0;
static Sw* rsw[MAXT]; static u32 nrsw[MAXT];
static u64 nextChange[16]; static int nChange=0; static u32 lowPrio=0; static u64 stallStep=0; static bool stalled=false;
static const size_t STACK=256<<10;
static u64 rnd(){ u64 z=(rs+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static void mixh(u64 v){ g_hash=(g_hash^v)*0x100000001B3ull; g_hash^=g_hash>>29; }
extern "C" void mt_switch(void** save,void* to);
asm(R"(
.text
.globl mt_switch
.type mt_switch,@function
mt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
static void go(int to){
  int from=cur; cur=to;
  void** g=(void**)abi::__cxa_get_globals();
  if(from>=0) memcpy(th[from].eh,g,16);
  if(to>=0) memcpy(g,th[to].eh,16); else memset(g,0,16);
  mt_switch(from>=0?&th[from].sp:&main_sp,to>=0?th[to].sp:main_sp);
}
static void logsw(int t,u64 step,int to){
  if(nsw==capsw){ capsw=capsw?capsw*2:4096; sws=(Sw*)realloc(sws,capsw*sizeof(Sw)); }
  sws[nsw++]=Sw{(u32)t,(u32)step,(u32)to};
  mixh(((u64)t<<40)^((u64)to<<32)^step);
  if(bitmap){ u64 h=(((u64)th[t].op*131+th[to].op)*1000003+(step%4096))*0x9E3779B97F4A7C15ull; u32 b=(u32)((h>>20)%(bitmapBytes*8)); bitmap[b>>3]|=(u8)(1<<(b&7)); }
}
static bool canRun(int t){ return th[t].st==READY&&!(stalled&&t==plan.stall); }
static int runnable(int* r,int except){ int k=0; for(int i=0;i<g_n;++i) if(i!=except&&canRun(i)) r[k++]=i; if(!k&&stalled&&plan.stall!=except&&th[plan.stall].st==READY) r[k++]=plan.stall; return k; }
static int best(int* r,int k){ int b=r[0]; for(int i=1;i<k;++i) if(th[r[i]].prio>th[b].prio) b=r[i]; return b; }
// the current thread must give way (forced) or may be preempted
static void decide(bool forced,bool sync,bool shared){
  Th& t=th[cur]; ++t.step; int r[MAXT]; int me=cur;
  if(replaying){
    while(t.nextSw<nrsw[me]&&rsw[me][t.nextSw].step<t.step) ++t.nextSw;
    int to=-1;
    if(t.nextSw<nrsw[me]&&rsw[me][t.nextSw].step==t.step){ to=(int)rsw[me][t.nextSw].to; ++t.nextSw; if(to>=g_n||th[to].st!=READY||to==me) to=-1; }
    if(to<0&&forced) for(int i=0;i<g_n;++i) if(i!=me&&th[i].st==READY){ to=i; break; }
    if(to<0){ if(forced) go(-1); return; }
    logsw(me,t.step,to); if(!forced) ++cnt.preemptions; go(to); return;
  }
  int to=-1;
  if(plan.stall>=0&&!stalled&&steps>=stallStep&&th[plan.stall].st!=DONE){ stalled=true; ++cnt.stalls; if(me==plan.stall&&!forced){ int k=runnable(r,me); if(k&&r[0]!=me) to=r[rnd()%k]; } }
  if(to<0&&forced){
    int k=runnable(r,me); if(!k){ go(-1); return; }
    to=plan.strategy==S_PCT?best(r,k):plan.strategy==S_SERIAL?r[0]:r[rnd()%k];
  }
  else if(to<0){
    switch(plan.strategy){
      case S_RANDOM: if(rnd()%plan.q==0){ int k=runnable(r,me); if(k) to=r[rnd()%k]; } break;
      case S_SYNC: if(sync&&rnd()%plan.q==0){ int k=runnable(r,me); if(k) to=r[rnd()%k]; } break;
      case S_SHARED: if((sync||shared)&&rnd()%plan.q==0){ int k=runnable(r,me); if(k) to=r[rnd()%k]; } break;
      case S_PCT:
        while(nChange&&steps>=nextChange[nChange-1]){ --nChange; t.prio=--lowPrio; }
        { int k=runnable(r,me); if(k){ int b=best(r,k); if(th[b].prio>t.prio||(stalled&&me==plan.stall)) to=b; } }
        break;
      default: break;
    }
  }
  if(to<0||to==me){ return; }
  logsw(me,t.step,to); if(!forced) ++cnt.preemptions; go(to);
}
//------------------------------------------------------------ happens-before
struct B{ u32 wc; u32 rc[MAXT]; u8 wt; };
static const u32 PG=512;
struct Page{ u64 key; B* b; };
static Page* tab=nullptr; static const u32 TAB=1u<<17; static Page* last=nullptr;
static B* cell(u64 a){
  u64 k=a/PG;
  if(last&&last->key==k) return last->b+a%PG;
  if(!tab) tab=(Page*)mmap(nullptr,sizeof(Page)*TAB,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  u32 i=(u32)((k*0x9E3779B97F4A7C15ull)>>40)&(TAB-1);
  while(tab[i].b&&tab[i].key!=k) i=(i+1)&(TAB-1);
  if(!tab[i].b){ tab[i].key=k; tab[i].b=(B*)mmap(nullptr,sizeof(B)*PG,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(tab[i].b==(B*)MAP_FAILED) abort(); }
  last=&tab[i]; return last->b+a%PG;
}
static void range_alloc(void* p,size_t n){ if(cur<0||!active) return; for(size_t i=0;i<n;++i){ B* b=cell((u64)p+i); memset(b,0,sizeof *b); } }
static void race(const char* what,int other,bool wr){
  active=false; 
  mt_fail("race","%s of thread %d (operation %u) and a %s of thread %d (operation %u) on the same memory are not ordered by any synchronisation",what,cur,th[cur].op,wr?"write":"read",other,th[other].op);
}
static inline void check(u64 a,size_t n,bool w,const char* what){
  Th& t=th[cur];
  for(size_t i=0;i<n;++i){
    B* b=cell(a+i);
    if(b->wt!=cur&&b->wc>t.vc[b->wt]) race(what,b->wt,true);
    if(w){ for(int u=0;u<g_n;++u) if(u!=cur&&b->rc[u]>t.vc[u]) race(what,u,false); b->wt=(u8)cur; b->wc=t.vc[cur]; }
    else b->rc[cur]=t.vc[cur];
  }
}
static void range_free(void* p,size_t n){ if(cur<0||!active) return; check((u64)p,n,true,"the release"); }
static inline bool isShared(u64 a){ B* b=cell(a); if(b->wc>clockBase&&b->wt!=cur) return true; for(int u=0;u<g_n;++u) if(u!=cur&&b->rc[u]>clockBase) return true; return false; }
static inline void acc(void* p,size_t n,bool w){
  if(cur<0||!active) return;
  ++steps; ++cnt.accesses;
  if(steps>30000000) { active=false; mt_fail("no-progress","the threads do not come to an end"); }
  bool sh=false; if(plan.strategy==S_SHARED||replaying){ sh=isShared((u64)p); if(sh) ++cnt.sharedAcc; }
  decide(false,false,sh);
  check((u64)p,n,w,w?"a write":"a read");
}
//------------------------------------------------------------ synchronisation objects
struct SyncObj{ void* a; int owner; u32 vc[MAXT]; u32 run; int pend; };
static SyncObj so[1<<12]; static u32 runNo=0;
static SyncObj& sobj(void* a){
  u32 i=(u32)(((u64)a>>3)*0x9E3779B97F4A7C15ull>>50)&4095; 
  for(u32 k=0;k<4096;++k,i=(i+1)&4095){ SyncObj& s=so[i]; if(s.run!=runNo){ memset(&s,0,sizeof s); s.run=runNo; s.a=a; s.owner=-1; s.pend=-1; return s; } if(s.a==a) return s; }
  abort();
}
static void acquire(SyncObj& s){ Th& t=th[cur]; for(int u=0;u<g_n;++u) if(s.vc[u]>t.vc[u]) t.vc[u]=s.vc[u]; }
static void release(SyncObj& s){ Th& t=th[cur]; for(int u=0;u<g_n;++u) if(t.vc[u]>s.vc[u]) s.vc[u]=t.vc[u]; ++t.vc[cur]; }
static void wake(void* a){ for(int i=0;i<g_n;++i) if(th[i].st==BLOCKED&&th[i].waits==a) th[i].st=READY; }
static void block(void* a){ th[cur].st=BLOCKED; th[cur].waits=a; ++cnt.blocked; decide(true,true,true); }
static int lock(void* m){
  if(cur<0||!active) return 0;
  ++cnt.lockops; ++steps; decide(false,true,true);
  SyncObj* s=&sobj(m);
  while(s->owner>=0){ if(s->owner==cur){ active=false; mt_fail("deadlock","thread %d (operation %u) locks a mutex it already holds",cur,th[cur].op); } block(m); s=&sobj(m); }
  s->owner=cur; acquire(*s); return 0;
}
static int trylock(void* m){ if(cur<0||!active) return 0; SyncObj& s=sobj(m); if(s.owner>=0) return EBUSY; return lock(m); }
static int unlock(void* m){
  if(cur<0||!active) return 0;
  ++cnt.lockops; ++steps; SyncObj& s=sobj(m);
  if(s.owner!=cur){ active=false; mt_fail("lock-misuse","thread %d (operation %u) unlocks a mutex it does not hold",cur,th[cur].op); }
  release(s); s.owner=-1; wake(m); decide(false,true,true); return 0;
}
static bool heldAny(int t){ for(auto& s:so) if(s.run==runNo&&s.owner==t&&s.a) return true; return false; }
//------------------------------------------------------------ guards of function-local statics
static void* guards[256]; static int nguards=0;
extern "C" char __data_start,_end;
void reset_guards(){ for(int i=0;i<nguards;++i) *(u8*)guards[i]=0; }
static int guard_acquire(u64* gp){
  u8* g=(u8*)gp;
  if((char*)g>=&__data_start&&(char*)g<&_end){ bool k=false; for(int i=0;i<nguards;++i) if(guards[i]==g) k=true; if(!k&&nguards<256) guards[nguards++]=g; }
  if(cur<0||!active) return *g?0:1;
  ++steps; ++cnt.guards; decide(false,true,true);
  for(;;){
    SyncObj& s=sobj(g);
    if(*g){ acquire(s); return 0; }
    if(s.pend<0){ s.pend=cur; return 1; }
    ++cnt.guardWaits; block(g);
  }
}
static void guard_release(u64* gp){
  u8* g=(u8*)gp; 
  if(cur>=0&&active){ SyncObj& s=sobj(g); release(s); s.pend=-1; *g=1; wake(g); ++steps; decide(false,true,true); }
  else *g=1;
}
static void guard_abort(u64* gp){ if(cur>=0&&active){ SyncObj& s=sobj(gp); s.pend=-1; wake(gp); } }
static void atomic_sync(void* a){ if(cur<0||!active) return; ++steps; decide(false,true,true); SyncObj& s=sobj(a); acquire(s); release(s); }
//------------------------------------------------------------ running
static void entry(){
  int me=cur; th[me].f(me);
  if(heldAny(me)){ active=false; mt_fail("lock-leak","thread %d ends holding a mutex",me); }
  th[me].st=DONE; decide(true,true,true); abort();
}
void plan_random(const Plan& p){ plan=p; replaying=false; rs=p.seed; }
void plan_replay(const Sw* s,size_t n){
  replaying=true; plan=Plan(); for(int t=0;t<MAXT;++t){ free(rsw[t]); rsw[t]=(Sw*)malloc((n+1)*sizeof(Sw)); nrsw[t]=0; }
  for(size_t i=0;i<n;++i) if(s[i].t<MAXT) rsw[s[i].t][nrsw[s[i].t]++]=s[i];
}
void run_threads(int n,void(*f)(int)){
  static char* stacks=nullptr; 
  if(!stacks){ stacks=(char*)mmap((void*)0x520000000000ull,STACK*MAXT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(stacks==(char*)MAP_FAILED) abort(); }
  g_n=n; steps=0; nsw=0; g_hash=1469598103934665603ull; ++runNo; stalled=false;
  u32 base=clockBase; for(int t=0;t<MAXT;++t) for(int u=0;u<MAXT;++u) if(th[t].vc[u]>base) base=th[t].vc[u];
  clockBase=base+1;
  for(int t=0;t<n;++t){
    Th& x=th[t]; memset(&x,0,sizeof x); x.st=READY; x.stack=stacks+STACK*t; x.f=f; 
    for(int u=0;u<MAXT;++u) x.vc[u]=clockBase; x.vc[t]=clockBase+1;
    u64* sp=(u64*)(x.stack+STACK-64); *--sp=0; *--sp=(u64)&entry; for(int i=0;i<6;++i) *--sp=0; x.sp=sp;
    x.prio=1000000+(u32)(rnd()%100000)*4+t;
  }
  lowPrio=1000; nChange=0;
  if(!replaying&&plan.strategy==S_PCT){ nChange=(int)plan.depth; for(int i=0;i<nChange;++i) nextChange[i]=1+rnd()%(plan.estimate+1); for(int i=0;i<nChange;++i) for(int j=i+1;j<nChange;++j) if(nextChange[j]>nextChange[i]){ u64 z=nextChange[i]; nextChange[i]=nextChange[j]; nextChange[j]=z; } }
  stallStep=plan.stall>=0?plan.stallAt:0; 
  int first=0; if(!replaying){ if(plan.strategy==S_PCT){ int r[MAXT]; int k=runnable(r,-1); first=best(r,k); } else if(plan.strategy!=S_SERIAL) first=(int)(rnd()%n); logsw(0,0,first); }
  else{ if(nrsw[0]&&rsw[0][0].step==0){ first=(int)rsw[0][0].to; if(first>=n) first=0; th[0].nextSw=1; } logsw(0,0,first); }
  active=true; cnt.threads+=n; go(first); active=false;
  for(int t=0;t<n;++t) if(th[t].st!=DONE){
    char b[512]; int o=0; for(int i=0;i<n;++i) o+=snprintf(b+o,sizeof b-o," thread %d %s (operation %u)",i,th[i].st==DONE?"done":"waiting",th[i].op);
    cur=-1; mt_fail("deadlock","no thread can go on:%s",b);
  }
  cur=-1;
}
size_t switches(const Sw** p){ *p=sws; return nsw; }
int self(){ return cur; }
u64 schedule_hash(){ return g_hash; }
void op_mark(u32 c){ if(cur>=0) th[cur].op=c; }
u32 op_of(int t){ return t>=0&&t<MAXT?th[t].op:0; }
static u32 mfn,mfa,mtk,mta; static bool mfired;
void arm(u32 n,u32 a){ if(cur>=0){ th[cur].fn=n; th[cur].fa=a; th[cur].tk=th[cur].ta=0; th[cur].fired=false; } else { mfn=n; mfa=a; mtk=mta=0; mfired=false; } }
void disarm(){ if(cur>=0) th[cur].fn=th[cur].fa=0; else mfn=mfa=0; }
bool armed_fired(){ return cur>=0?th[cur].fired:mfired; }
bool tick(){ if(cur>=0){ Th& t=th[cur]; if(t.fn&&++t.tk==t.fn){ t.fired=true; ++cnt.faults; return true; } } else if(mfn&&++mtk==mfn){ mfired=true; return true; } return false; }
static bool tickAlloc(){ if(cur>=0){ Th& t=th[cur]; if(t.fa&&++t.ta==t.fa){ t.fired=true; ++cnt.faults; return true; } } else if(mfa&&++mta==mfa){ mfired=true; return true; } return false; }
} // namespace mt
using namespace mt;
void* operator new(size_t n){ if(tickAlloc()) throw std::bad_alloc(); return hnew(n); }
void* operator new[](size_t n){ if(tickAlloc()) throw std::bad_alloc(); return hnew(n); }
void* operator new(size_t n,const std::nothrow_t&)noexcept{ return hnew(n); }
void operator delete(void* p)noexcept{ hdel(p); }
void operator delete[](void* p)noexcept{ hdel(p); }
void operator delete(void* p,size_t)noexcept{ hdel(p); }
void operator delete[](void* p,size_t)noexcept{ hdel(p); }
extern "C"{
int pthread_mutex_lock(pthread_mutex_t* m)noexcept{ return lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m)noexcept{ return unlock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m)noexcept{ return trylock(m); }
int pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t*)noexcept{ memset(m,0,sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*)noexcept{ return 0; }
}
void* x_alloc(size_t) asm("__cxa_allocate_exception");
void* x_alloc(size_t n){ static void*(*real)(size_t)=(void*(*)(size_t))dlsym(RTLD_NEXT,"__cxa_allocate_exception"); void* p=real(n); range_alloc((char*)p,n); return p; }
int g_acq(u64*) asm("__cxa_guard_acquire"); void g_rel(u64*) asm("__cxa_guard_release"); void g_abt(u64*) asm("__cxa_guard_abort");
int g_acq(u64* g){ return guard_acquire(g); }
void g_rel(u64* g){ guard_release(g); }
void g_abt(u64* g){ guard_abort(g); }
extern "C"{
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(N) void __tsan_read##N(void* p){ acc(p,N,false); } void __tsan_write##N(void* p){ acc(p,N,true); } \
  void __tsan_unaligned_read##N(void* p){ acc(p,N,false); } void __tsan_unaligned_write##N(void* p){ acc(p,N,true); } \
  void __tsan_read_write##N(void* p){ acc(p,N,false); acc(p,N,true); } void __tsan_unaligned_read_write##N(void* p){ acc(p,N,false); acc(p,N,true); } \
  void __tsan_volatile_read##N(void* p){ acc(p,N,false); } void __tsan_volatile_write##N(void* p){ acc(p,N,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,unsigned long n){ if(n) acc(p,n,false); }
void __tsan_write_range(void* p,unsigned long n){ if(n) acc(p,n,true); }
void __tsan_vptr_update(void** p,void* v){ if(*p!=v) acc(p,8,true); } void __tsan_vptr_read(void** p){ acc(p,8,false); }
void* __tsan_memcpy(void* d,const void* s,unsigned long n){ if(n){ acc((void*)s,n,false); acc(d,n,true); } return memcpy(d,s,n); }
void* __tsan_memmove(void* d,const void* s,unsigned long n){ if(n){ acc((void*)s,n,false); acc(d,n,true); } return memmove(d,s,n); }
void* __tsan_memset(void* d,int c,unsigned long n){ if(n) acc(d,n,true); return memset(d,c,n); }
#define AT(W,T) T __tsan_atomic##W##_load(const volatile T* a,int){ atomic_sync((void*)a); return *a; } \
  void __tsan_atomic##W##_store(volatile T* a,T v,int){ atomic_sync((void*)a); *a=v; } \
  T __tsan_atomic##W##_exchange(volatile T* a,T v,int){ atomic_sync((void*)a); T o=*a; *a=v; return o; } \
  T __tsan_atomic##W##_fetch_add(volatile T* a,T v,int){ atomic_sync((void*)a); T o=*a; *a=o+v; return o; } \
  T __tsan_atomic##W##_fetch_sub(volatile T* a,T v,int){ atomic_sync((void*)a); T o=*a; *a=o-v; return o; } \
  T __tsan_atomic##W##_fetch_and(volatile T* a,T v,int){ atomic_sync((void*)a); T o=*a; *a=o&v; return o; } \
  T __tsan_atomic##W##_fetch_or(volatile T* a,T v,int){ atomic_sync((void*)a); T o=*a; *a=o|v; return o; } \
  T __tsan_atomic##W##_fetch_xor(volatile T* a,T v,int){ atomic_sync((void*)a); T o=*a; *a=o^v; return o; } \
  int __tsan_atomic##W##_compare_exchange_strong(volatile T* a,T* c,T v,int,int){ atomic_sync((void*)a); if(*a==*c){ *a=v; return 1; } *c=*a; return 0; } \
  int __tsan_atomic##W##_compare_exchange_weak(volatile T* a,T* c,T v,int,int){ atomic_sync((void*)a); if(*a==*c){ *a=v; return 1; } *c=*a; return 0; } \
  T __tsan_atomic##W##_compare_exchange_val(volatile T* a,T c,T v,int,int){ atomic_sync((void*)a); T o=*a; if(o==c) *a=v; return o; }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
