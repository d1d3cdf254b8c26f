// Simulation driver: seeded runs, trace recording and replay.
#include "world.hpp"
#include "configs.hpp"
#include "profiles.hpp"
#include <fcntl.h>
#include <cinttypes>
#include <sys/personality.h>

namespace sim{
G g; Arena arena; u64 g_liveElems=0,g_outElems=0,g_births=0; std::string g_failctx,g_optags,g_faulttags; Prof PROF;
typedef World<CA,CB> W;
static std::string g_out; static u64* g_progress=nullptr;
static std::vector<u64> g_hashes; static u64 g_nontrivial=0;
static std::vector<u8> g_bitmap;
static void writeStats();
static u64 g_run=0;

[[noreturn]] void fail(const char* cls,const char* tags,const char* f,...){
  g.armed=false;
  char b[1024]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap);
  std::string t=tags; if(!g_optags.empty()) t+=","+g_optags; if(!g_faulttags.empty()) t+=","+g_faulttags;
  printf("FAIL class=%s tags=%s run=%" PRIu64 " hash=%016" PRIx64 " at={%s} msg=%s\n",cls,t.c_str(),g_run,g.log,g.where.c_str(),b);
  fflush(stdout); writeStats(); _exit(3);
}
#ifdef SIM_SAFE
[[noreturn]] void safe_error(int code){ throw SafeError{code}; }
#endif
#ifdef SIM_INV
u32 g_invSeen=0,g_invHits=0,g_opcode=OP_N; bool g_invExpected=false;
void invariant_failed(){ if(g_invExpected) ++g_invHits; else fail("invariant-alarm","C23,C01","an internal invariant check of the library failed"); }
#endif

static void onHang(int){ const char m[]="\nHANG\n"; ssize_t r=write(1,m,sizeof m-1); (void)r; _exit(67); }
static void onCrash(int sig){ char m[64]; int n=snprintf(m,sizeof m,"\nCRASH signal=%d\n",sig); ssize_t r=write(1,m,n); (void)r; _exit(68); }
static void crashHandlers(){
#if !defined(__SANITIZE_ADDRESS__)
  static char stk[1<<16]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=stk; ss.ss_size=sizeof stk; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onCrash; sa.sa_flags=SA_ONSTACK; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL}) sigaction(s,&sa,nullptr);
#endif
  struct sigaction sb; memset(&sb,0,sizeof sb); sb.sa_handler=onCrash; sigaction(SIGABRT,&sb,nullptr);
}
static int g_wd=10;
static void watchdog(int s){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=s; setitimer(ITIMER_PROF,&t,nullptr); }

struct RunState{ u32 last[OP_N]={0}; u32 lastK[OP_N][F_NK]={{0}}; };

static void stateBit(W& w){
  u64 h=1469598103934665603ull;
  w.eachSlot([&](auto& s){ h=mix64(h,77); for(auto& o:s.ord){ h=mix64(h,o.size()); for(EP p:o) h=mix64(h,(u64)(p->c.k[0]*64+p->c.k[1])*4096+(u64)(p->c.k[2]*64+p->c.k[3])); } });
  if(g_bitmap.size()){ u32 b=(u32)(h%(g_bitmap.size()*8)); g_bitmap[b>>3]|=(u8)(1<<(b&7)); }
}
template<class F> static void guard(F f){
  try{ f(); }
#ifdef SIM_SAFE
  catch(SafeError& e){ fail("safe-mode-false-alarm","C17","safe mode reported error %d for a valid use",e.code); }
#endif
  catch(Fault& x){ fail("stray-exception","*","a user exception escaped from an operation that calls no user code (%d)",x.kind); }
  catch(std::exception& e){ fail("stray-exception","*","an unexpected exception escaped: %s",e.what()); }
}
static void beginRun(bool reuse){
  arena.reset(reuse); g_liveElems=0; g_outElems=0; g_births=0; g.log=1469598103934665603ull; g.armed=false; g.mask=0; g.fired=0; g_optags=g_faulttags="";
  g.where="setup"; watchdog(g_wd);
}
static void printOp(FILE* f,const Op& o){
  fprintf(f,"%s",op_name[o.code]); for(int i=0;i<8;++i) fprintf(f," %u",o.a[i]); fprintf(f," %u %u %u %u\n",o.fmask,o.fn,o.fn2,o.sticky); fflush(f);
}
static void printKnobs(FILE* f,const Knobs& k,const std::string& prop){
  fprintf(f,"# simulation trace: one operation per line (name, eight arguments, fault mask, first fault, second fault, sticky)\nknobs %d %u %u %u %u %u %u %u %u %u %u %d %u %s\n",CFG,k.dom[0],k.dom[1],k.dom[2],k.dom[3],k.reuse,k.maxn,k.vary,k.nalloc,k.fill,k.pat,(int)PROF.deepHash,PROF.poolMax,prop.c_str()); fflush(f);
}
static void oneRun(u64 seed,u64 idx,const std::string& prop,FILE* trace){
  g_run=idx; Rng r(mix64(mix64(seed,CFG+101),idx*2+1)); for(char c:prop) r.s=mix64(r.s,c);
  Knobs k; static const u32 D[8]={2,3,4,6,8,12,20,40}; for(auto& d:k.dom) d=D[r.below(8)]; if(r.chance(1,3)){ u32 x=D[r.below(8)]; for(auto& d:k.dom) d=x; }
  static const u32 MX[6]={3,6,12,20,32,60}; k.maxn=MX[r.below(6)]; if(r.chance(1,40)) k.maxn=r.chance(1,3)?230:110; k.reuse=r.below(2); k.vary=r.chance(1,2)?(u32)r.next()|1:0; k.nalloc=1+r.below(3); k.fill=r.chance(1,2)?k.maxn:0; if(k.maxn>100){ u32 m=k.maxn; for(auto& d:k.dom) if(d<20&&r.chance(1,2)) d=200; k.fill=m; }
  bool pat=r.chance(1,PROF.patRuns); if(pat){ k.pat=1+r.below(4); k.maxn=r.chance(1,4)?200:r.chance(1,2)?100:50; k.fill=r.chance(1,2)?k.maxn/2:0; }
  bool big=!pat&&r.chance(1,PROF.bigRuns); if(big){ k.maxn=r.chance(1,3)?3200:900; k.fill=k.maxn; k.pat=0; u32 m=r.chance(1,2)?20000:k.maxn/2; for(auto& d:k.dom) if(r.chance(4,5)) d=m; }   // larger bucket arrays, trees and capacities, few operations
  bool faults=r.below(100)<PROF.faultRuns; u32 fo=faults?(r.chance(1,4)?PROF.faultOps*2:PROF.faultOps):0; if(fo>90)fo=90;
  u32 nops=r.range(PROF.opsMin,PROF.opsMax); if(r.chance(1,3)) nops=r.range(3,15);
  if(k.maxn==60&&!k.fill) nops=nops*2; if(k.maxn>100) nops=nops/2+3; if(pat) nops=k.maxn+r.below(200); if(big) nops=r.range(4,14);
  // swarm: switch some operations off for this run
  u32 w[OP_N],tot=0; bool allOn=r.chance(1,3); for(int i=0;i<OP_N;++i){ w[i]=PROF.w[i]; if(!allOn&&w[i]<14&&r.chance(3,10)) w[i]=0; else if(!allOn&&r.chance(1,6)) w[i]*=3; }
  if(k.maxn>=60&&!k.fill){ w[K_INSERT]*=3; w[P_INSERT]*=3; }
  for(int i=0;i<OP_N;++i) tot+=w[i];
  u32 focus=r.below(W::NS),focus2=r.below(W::NS); u32 kindsOn=(u32)r.next();
  if(trace) printKnobs(trace,k,prop);
  beginRun(k.reuse);
  u64 f0=0; for(auto x:g.st.fired) f0+=x; u64 v0=g.st.ops_vetoed;
  RunState rs; W* world=new W;
  guard([&]{ world->setup(k); });
  struct{ u32 left=0,ins=0,slot=0,ki=0,ei=0,end=0,n=0; } bu;       // a stretch of insertions and erasures at the ends
  for(u32 n=0;n<nops;++n){
    Op o; u32 x=r.below(tot); int c=0; while(x>=w[c]){ x-=w[c]; ++c; } o.code=c;
    for(auto& a:o.a) a=(u32)r.next()>>8;
    if(pat&&!bu.left&&r.chance(1,6)){ bu.left=20+r.below(k.maxn); bu.ins=r.below(5); bu.slot=r.chance(3,4)?focus:r.below(W::NS); bu.ki=r.below(12); bu.ei=r.below(12); bu.end=r.below(3); }
    if(bu.left){
      --bu.left; ++bu.n; bool ins=bu.ins==4||(bu.ins==0?bu.n%2==0:bu.ins<3&&bu.n%4<=bu.ins);
      o.code=c=ins?K_INSERT:K_ERASE_IT; if(!ins) o.a[4]=bu.end==0||(bu.end==2&&bu.n%3)?0:0xFFFFFF;
    }
    auto slot=[&]{ return r.chance(1,2)?focus:r.chance(1,2)?focus2:r.below(W::NS); };
    o.a[0]=slot(); o.a[1]=r.below(12); if(bu.left){ o.a[0]=bu.slot; o.a[1]=c==K_INSERT?bu.ki:bu.ei; o.a[5]|=1; }
    bool pair=(c>=M_ONE&&c<=M_ALL)||(c>=P_SPLICE_ONE&&c<=P_SPLICE_ALL)||c==P_MERGE||(c>=C_COPY&&c<=C_MOVE_ASSIGN)||c==C_SWAP||c==C_COMPARE||c==I_BAD||c==S_ROUND||c==S_FAULT_LOAD;
    if(pair) o.a[2]=slot();
    if(fo&&r.below(100)<fo&&!(c>=I_TAKE&&c<=I_BAD)&&c!=V_SPOIL){
      u32 sel=r.below(8); 
      if(sel<4) o.fmask=((1u<<F_NK)-1)&~(1u<<F_NEW); 
      else if(sel<6){ std::vector<u32> ks; for(u32 q=0;q<F_NK;++q) if(rs.lastK[c][q]) ks.push_back(q); if(ks.empty()) ks={F_ALLOC,F_CTOR,F_CMP,F_HASH,F_EQ,F_KEY,F_MOD}; o.fmask=1u<<ks[r.below(ks.size())]; }
      else if(sel<7) o.fmask=1u<<F_ALLOC;
      else o.fmask=(kindsOn&((1u<<F_NK)-1))|1;
      if(r.chance(1,10)) o.fmask|=1u<<F_NEW;
      u32 hi=0; for(u32 q=0;q<F_NK;++q) if((o.fmask>>q)&1) hi+=rs.lastK[c][q]; if(hi<2) hi=6;
      o.fn=1+r.below(hi+hi/8+1); if(r.chance(1,4)) o.fn=1+r.below(4);
      if(r.chance(1,5)) o.fn2=1+r.below(r.chance(1,2)?2:8);
      o.sticky=r.chance(1,8);
    }
    if(trace) printOp(trace,o);
    for(auto& m:g.maskPoints) m=0;
    guard([&]{ world->exec(o); });
    if(!o.fmask) for(u32 q=0;q<F_NK;++q) if(g.maskPoints[q]) rs.lastK[c][q]=std::min(g.maskPoints[q],2000u);
    ++g.st.opcount[op_name[c]];
    stateBit(*world);
  }
  guard([&]{ world->teardown(); });
  delete world; ++g.st.runs;
  u64 f1=0; for(auto z:g.st.fired) f1+=z;
  g_hashes.push_back(g.log); if(f1>f0||g.st.ops_vetoed>v0) ++g_nontrivial; else g_hashes.back()=0;
}
static void writeStats(){
  watchdog(0);
  if(g_out.empty()) return;
  FILE* f=fopen((g_out+".json").c_str(),"w"); if(!f) return;
  fprintf(f,"{\"runs\":%" PRIu64 ",\"ops\":%" PRIu64 ",\"ops_faulted\":%" PRIu64 ",\"ops_threw\":%" PRIu64 ",\"ops_vetoed\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"fired\":{",g.st.runs,g.st.ops,g.st.ops_faulted,g.st.ops_threw,g.st.ops_vetoed,g_nontrivial);
  for(int i=0;i<F_NK;++i) fprintf(f,"%s\"%s\":%" PRIu64,i?",":"",fk_name[i],g.st.fired[i]);
  fprintf(f,"},\"ops_by_kind\":{"); bool first=true; for(auto& x:g.st.opcount){ fprintf(f,"%s\"%s\":%" PRIu64,first?"":",",x.first.c_str(),x.second); first=false; }
  fprintf(f,"},\"probes\":["); for(int i=0;i<64;++i) fprintf(f,"%s%" PRIu64,i?",":"",g.st.probes[i]);
  fprintf(f,"]}\n"); fclose(f);
  f=fopen((g_out+".hashes").c_str(),"wb"); if(f){ fwrite(g_hashes.data(),8,g_hashes.size(),f); fclose(f); }
  f=fopen((g_out+".bitmap").c_str(),"wb"); if(f){ fwrite(g_bitmap.data(),1,g_bitmap.size(),f); fclose(f); }
}
static int replay(const char* path){
  FILE* f=fopen(path,"r"); if(!f){ fprintf(stderr,"cannot open %s\n",path); return 2; }
  char line[1024]; Knobs k; std::vector<Op> ops; bool ok=false; 
  while(fgets(line,sizeof line,f)){
    if(line[0]=='#'||line[0]=='\n') continue;
    if(!strncmp(line,"knobs ",6)){ int cfg,dh; u32 pm; char prop[64]; if(sscanf(line+6,"%d %u %u %u %u %u %u %u %u %u %u %d %u %63s",&cfg,&k.dom[0],&k.dom[1],&k.dom[2],&k.dom[3],&k.reuse,&k.maxn,&k.vary,&k.nalloc,&k.fill,&k.pat,&dh,&pm,prop)!=14||cfg!=CFG){ fprintf(stderr,"bad knobs line\n"); return 2; } PROF.deepHash=dh; PROF.poolMax=pm; ok=true; continue; }
    char nm[64]; Op o; if(sscanf(line,"%63s %u %u %u %u %u %u %u %u %u %u %u %u",nm,&o.a[0],&o.a[1],&o.a[2],&o.a[3],&o.a[4],&o.a[5],&o.a[6],&o.a[7],&o.fmask,&o.fn,&o.fn2,&o.sticky)!=13){ fprintf(stderr,"bad line: %s",line); return 2; }
    o.code=OP_N; for(u32 i=0;i<OP_N;++i) if(!strcmp(nm,op_name[i])) o.code=i; if(o.code==OP_N){ fprintf(stderr,"unknown operation %s\n",nm); return 2; }
    ops.push_back(o);
  }
  fclose(f); if(!ok){ fprintf(stderr,"no knobs line\n"); return 2; }
  beginRun(k.reuse); W* world=new W; guard([&]{ world->setup(k); });
  for(auto& o:ops) guard([&]{ world->exec(o); });
  guard([&]{ world->teardown(); }); delete world;
  printf("OK hash=%016" PRIx64 "\n",g.log); return 0;
}
}
using namespace sim;
void* operator new(std::size_t n,const std::nothrow_t&)noexcept{ if(point_deny(F_NEW)) return nullptr; try{ return ::operator new(n); }catch(...){ return nullptr; } }
extern "C" const char* __asan_default_options(){ return "exitcode=66:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
int main(int argc,char** argv){
  { int p=personality(0xffffffff); if(p!=-1&&!(p&ADDR_NO_RANDOMIZE)&&personality(p|ADDR_NO_RANDOMIZE)!=-1&&!getenv("SIM_REEXEC")){ setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",argv); } }
  signal(SIGPROF,onHang); crashHandlers(); if(const char* w=getenv("SIM_WATCHDOG")) g_wd=atoi(w)>0?atoi(w):10;
  std::string m=argc>1?argv[1]:"";
  if(m=="replay"&&argc==3) return replay(argv[2]);
  if(m=="one"&&argc==6){ profileFor(argv[2]); FILE* t=fopen(argv[5],"w"); if(!t) return 2; oneRun(strtoull(argv[3],0,10),strtoull(argv[4],0,10),argv[2],t); printf("OK hash=%016" PRIx64 "\n",g.log); return 0; }
  if(m=="run"&&argc==7){
    profileFor(argv[2]); u64 seed=strtoull(argv[3],0,10),a=strtoull(argv[4],0,10),b=strtoull(argv[5],0,10); g_out=argv[6]; g_bitmap.assign(1<<19,0);
    int fd=open((g_out+".progress").c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); if(fd<0||ftruncate(fd,8)) return 2; g_progress=(u64*)mmap(nullptr,8,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
    for(u64 i=a;i<b;++i){ *g_progress=i+1; oneRun(seed,i,argv[2],nullptr); }
    writeStats(); printf("OK runs=%" PRIu64 "\n",g.st.runs); return 0;
  }
  fprintf(stderr,"usage: run PROP SEED FROM TO OUT | one PROP SEED IDX TRACE | replay TRACE\n"); return 2;
}
