// Workload profiles: how often each operation is generated when a property is
// being decided, and how often faults are planned.
#ifndef SIM_PROFILES_HPP
#define SIM_PROFILES_HPP
namespace sim{
inline void setW(std::initializer_list<int> l,unsigned v){ for(int c:l) PROF.w[c]=v; }
inline void mulW(std::initializer_list<int> l,unsigned v){ for(int c:l) PROF.w[c]*=v; }
inline void profileFor(const std::string& p){
  for(int i=0;i<OP_N;++i) PROF.w[i]=4;
  setW({K_INSERT,P_INSERT},16); setW({K_INSERT_RANGE,P_INSERT_RANGE,P_INSERT_N},6);
  setW({C_CLEAR,C_INIT_ASSIGN,C_RECREATE,P_ASSIGN,P_REMOVE,P_UNIQUE,P_RESIZE},1);
  setW({C_COPY,C_MOVE,C_COPY_ASSIGN,C_MOVE_ASSIGN,C_SWAP},2); setW({C_COMPARE},1);
  setW({I_TAKE,I_USE},3); setW({I_DROP,I_BAD},0); setW({S_ROUND,S_FAULT_SAVE,S_FAULT_LOAD,V_SPOIL},0);
  PROF.faultRuns=50; PROF.faultOps=35; PROF.opsMin=20; PROF.opsMax=110;
  if(p=="C01"){ PROF.deepHash=true; PROF.faultRuns=35; }
  if(p=="C02"){ mulW({K_INSERT,K_INSERT_RANGE,P_INSERT,P_INSERT_N,P_INSERT_RANGE,X_INSERT,M_ONE,M_RANGE,M_ALL,P_SPLICE_ONE,P_SPLICE_RANGE,P_SPLICE_ALL},2); mulW({K_REPLACE,K_MODIFY,K_MODIFY_RB,K_MODKEY,K_MODKEY_RB},3); PROF.faultRuns=20; }
  if(p=="C03"){ mulW({K_INSERT,K_REPLACE,P_INSERT,X_INSERT,M_ONE,P_SPLICE_ONE,K_ERASE_IT,X_EXTRACT_IT},2); mulW({H_REHASH,P_CAP,C_COPY_ASSIGN,C_INIT_ASSIGN},3); PROF.faultRuns=85; PROF.faultOps=60; }
  if(p=="C04"){ mulW({K_INSERT_RANGE,P_INSERT_RANGE,P_INSERT_N,M_RANGE,M_ALL,P_SPLICE_RANGE,P_SPLICE_ALL,P_MERGE,P_SORT,P_REARRANGE},4); mulW({P_REMOVE,P_UNIQUE,P_RESIZE,P_ASSIGN,K_ERASE_KEY},6); PROF.faultRuns=85; PROF.faultOps=60; }
  if(p=="C05"){ mulW({K_MODIFY,K_MODIFY_RB,K_MODKEY,K_MODKEY_RB},9); PROF.faultRuns=60; PROF.faultOps=60; PROF.deepHash=true; }
  if(p=="C06"){ mulW({C_COPY,C_MOVE,C_COPY_ASSIGN,C_MOVE_ASSIGN,C_SWAP,C_RECREATE,C_INIT_ASSIGN,X_EXTRACT_IT,X_INSERT,X_MISC},3); PROF.faultRuns=70; PROF.faultOps=50; }
  if(p=="C07"){ setW({I_TAKE},20); setW({I_USE},6); mulW({C_SWAP,C_MOVE,C_MOVE_ASSIGN,M_ONE,M_RANGE,M_ALL,P_SPLICE_ONE,P_SPLICE_RANGE,P_SPLICE_ALL,K_MODIFY,K_REPLACE,H_REHASH,P_CAP},2); PROF.poolMax=24; PROF.faultRuns=40; }
  if(p=="C08"||p=="C09"){ mulW({K_LOOKUP},6); mulW({K_ERASE_IT,K_ERASE_KEY,K_ERASE_RANGE,K_INSERT},2); PROF.faultRuns=35; PROF.opsMax=160; PROF.patRuns=6; }
  if(p=="C10"){ mulW({K_LOOKUP,H_REHASH,H_MLF},4); mulW({K_ERASE_IT,K_ERASE_KEY,K_ERASE_RANGE,K_INSERT},2); PROF.deepHash=true; PROF.faultRuns=45; PROF.opsMax=160; }
  if(p=="C11"||p=="C12"){ mulW({P_INSERT,P_INSERT_N,P_INSERT_RANGE,P_POP,P_ASSIGN,P_RESIZE,P_SPLICE_ONE,P_SPLICE_RANGE,P_SPLICE_ALL,P_REMOVE,P_UNIQUE,P_MERGE,P_SORT,P_REVERSE,P_RELOC,P_RELOC_RANGE,P_REARRANGE,P_CAP},3); PROF.faultRuns=40; }
  if(p=="C13"){ mulW({X_EXTRACT_IT,X_EXTRACT_KEY,X_INSERT,X_MISC,M_ONE,M_RANGE,M_ALL,P_SPLICE_ONE,P_SPLICE_RANGE,P_SPLICE_ALL},5); PROF.faultRuns=45; }
  if(p=="C14"){ mulW({C_COPY,C_MOVE,C_COPY_ASSIGN,C_MOVE_ASSIGN,C_SWAP,C_INIT_ASSIGN,C_RECREATE},7); PROF.faultRuns=50; PROF.faultOps=50; }
  if(p=="C15"){ setW({S_ROUND},45); PROF.faultRuns=15; PROF.opsMax=60; }
  if(p=="C16"){ setW({S_ROUND},4); setW({S_FAULT_SAVE},20); setW({S_FAULT_LOAD},45); PROF.faultRuns=70; PROF.faultOps=70; PROF.opsMax=60; }
  if(p=="C17"){ setW({I_TAKE},14); setW({I_USE},5); setW({I_BAD},45); PROF.poolMax=30; PROF.faultRuns=30; mulW({X_EXTRACT_IT,M_ALL,P_SPLICE_ALL,C_SWAP,K_MODIFY,C_MOVE_ASSIGN},2); }
  if(p=="C23"){ setW({V_SPOIL},30); PROF.faultRuns=45; PROF.bigRuns*=4; }
  if(p=="C21"){ setW({C_COMPARE},50); mulW({C_COPY,C_COPY_ASSIGN},4); PROF.faultRuns=20; }
}
}
#endif
