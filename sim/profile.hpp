#ifndef SIM_PROFILE_HPP
#define SIM_PROFILE_HPP
namespace sim{
struct Prof{
  bool deepHash=false;
  unsigned poolMax=10;
  unsigned w[96]={0};        // weight of each operation
  unsigned faultRuns=50;     // percentage of runs with faults
  unsigned faultOps=40;      // percentage of faulted operations in those runs
  unsigned patRuns=60;       // one run in so many uses patterned keys
#ifndef SIM_BIGRUNS
#define SIM_BIGRUNS 300
#endif
  unsigned bigRuns=SIM_BIGRUNS;   // one run in so many has containers of thousands of elements
  unsigned opsMin=30,opsMax=120;
};
extern Prof PROF;
}
#endif
