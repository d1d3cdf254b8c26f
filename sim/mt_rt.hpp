// Runtime of the thread simulator: fibers on one OS thread, every instrumented
// memory access and every mutex operation a possible preemption point, a
// happens-before race detector, and a deterministic heap.
#ifndef SIM_MT_RT_HPP
#define SIM_MT_RT_HPP
#include <cstdint>
#include <cstddef>
namespace mt{
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
enum{MAXT=4};
enum Strategy{S_RANDOM,S_PCT,S_SYNC,S_SHARED,S_SERIAL,S_NK};
struct Sw{ u32 t,step,to; };
struct Plan{ int strategy=S_RANDOM; u32 q=8; u32 depth=3; u64 estimate=1000; u64 seed=1; int stall=-1; u32 stallAt=0; };
struct Counters{ u64 accesses,preemptions,lockops,blocked,stalls,guards,guardWaits,faults,threads,sharedAcc; };
extern Counters cnt;
void heap_begin();                 // from here on operator new is deterministic
void heap_end();                   // back to malloc
u64  heap_live();
void out_of_run(bool);             // allocations of the driver itself
void reset_guards();               // function-local statics are initialised anew
void plan_random(const Plan&);
void plan_replay(const Sw*,size_t);
void run_threads(int n,void(*f)(int));
size_t switches(const Sw**);
int  self();
u64  schedule_hash();
void op_mark(u32 code);            // the current thread begins an operation
u32  op_of(int t);
// fault points of user functors, per thread
void arm(u32 nth,u32 nthAlloc); void disarm(); bool armed_fired();
u32  ticks();
bool tick();                       // true: this point must throw
// statistics: pairs (operation, operation) between which a preemption took place
extern u8* bitmap; extern u32 bitmapBytes;
}
[[noreturn]] void mt_fail(const char* cls,const char* fmt,...);   // provided by the driver
#endif
