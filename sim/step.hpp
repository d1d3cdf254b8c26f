// Dispatch of operations to containers and indices.
#ifndef SIM_STEP_HPP
#define SIM_STEP_HPP
namespace sim{
template<class KA,class KB> void World<KA,KB>::step(const Op& op){
  auto key=[](Kind k){ return isKey(k); }; auto pos=[](Kind k){ return isPos(k); }; auto any=[](Kind){ return true; };
  auto hash=[](Kind k){ return k==K_HASH; }; auto rnd=[](Kind k){ return k==K_RND; };
  (void)rnd; (void)hash;
#define ONE(PRED,COND,CALL) withSlot(op.a[0],[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type::Cfg K; int i_=pickIdx<K>(op.a[1],PRED); if(i_<0) return; withIdx<K>(i_,[&](auto I_){ constexpr int I=decltype(I_)::value; if constexpr(COND){ CALL; } }); })
#define PAIR(PRED,COND,CALL) withSlot(op.a[0],[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type::Cfg K; int i_=pickIdx<K>(op.a[1],PRED); if(i_<0) return; withIdx<K>(i_,[&](auto I_){ constexpr int I=decltype(I_)::value; if constexpr(COND){ withSlot(op.a[2],[&](auto& t){ typedef typename std::remove_reference<decltype(t)>::type::Cfg L; if(op.a[3]&1){ constexpr int J=I; CALL; } else { constexpr int J=(I+1)%K::N; CALL; } }); } }); })
#define SAMEK(CALL) withSlot(op.a[0],[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; typedef typename S::Cfg K; \
    withSlot(std::is_same<S,Slot<KA>>::value&&!SAME?op.a[2]%NA:(NB?NA+op.a[2]%(NB?NB:1):op.a[2]),[&](auto& t){ if constexpr(std::is_same<decltype(t),S&>::value){ CALL; } }); })
#ifdef SIM_INV
  g_opcode=op.code;
#endif
  switch(op.code){
    case K_INSERT: ONE(key,isKey(K::kinds[I]),(op_insert<K,I>(s,op))); break;
    case K_INSERT_RANGE: ONE(key,isKey(K::kinds[I]),(op_insert_range<K,I>(s,op))); break;
    case K_ERASE_IT: ONE(any,true,(op_erase_it<K,I>(s,op))); break;
    case K_ERASE_RANGE: ONE(any,true,(op_erase_range<K,I>(s,op))); break;
    case K_ERASE_KEY: ONE(key,isKey(K::kinds[I]),(op_erase_key<K,I>(s,op))); break;
    case K_REPLACE: ONE(any,true,(op_replace<K,I>(s,op))); break;
    case K_MODIFY: ONE(any,true,(op_modify<K,I>(s,op,false))); break;
    case K_MODIFY_RB: ONE(any,true,(op_modify<K,I>(s,op,true))); break;
    case K_MODKEY: ONE(key,isKey(K::kinds[I]),(op_modkey<K,I>(s,op,false))); break;
    case K_MODKEY_RB: ONE(key,isKey(K::kinds[I]),(op_modkey<K,I>(s,op,true))); break;
    case K_LOOKUP: ONE(key,isKey(K::kinds[I]),(op_lookup<K,I>(s,op))); break;
    case X_EXTRACT_IT: ONE(any,true,(op_extract_it<K,I>(s,op))); break;
    case X_EXTRACT_KEY: ONE(key,isKey(K::kinds[I]),(op_extract_key<K,I>(s,op))); break;
    case X_INSERT: ONE(any,true,(op_insert_handle<K,I>(s,op))); break;
    case X_MISC: op_handle_misc(op); break;
    case M_ONE: PAIR(key,isKey(K::kinds[I]),(op_merge<K,I,L,J>(s,t,op,0))); break;
    case M_RANGE: PAIR(key,isKey(K::kinds[I]),(op_merge<K,I,L,J>(s,t,op,1))); break;
    case M_ALL: PAIR(key,isKey(K::kinds[I]),(op_merge<K,I,L,J>(s,t,op,2))); break;
    case P_INSERT: ONE(pos,isPos(K::kinds[I]),(op_pos_insert<K,I>(s,op))); break;
    case P_INSERT_N: ONE(pos,isPos(K::kinds[I]),(op_pos_insert_n<K,I>(s,op))); break;
    case P_INSERT_RANGE: ONE(pos,isPos(K::kinds[I]),(op_pos_insert_range<K,I>(s,op))); break;
    case P_POP: ONE(pos,isPos(K::kinds[I]),(op_pop<K,I>(s,op))); break;
    case P_ASSIGN: ONE(pos,isPos(K::kinds[I]),(op_assign<K,I>(s,op))); break;
    case P_RESIZE: ONE(pos,isPos(K::kinds[I]),(op_resize<K,I>(s,op))); break;
    case P_SPLICE_ONE: PAIR(pos,isPos(K::kinds[I]),(op_splice<K,I,L,J>(s,t,op,0))); break;
    case P_SPLICE_RANGE: PAIR(pos,isPos(K::kinds[I]),(op_splice<K,I,L,J>(s,t,op,1))); break;
    case P_SPLICE_ALL: PAIR(pos,isPos(K::kinds[I]),(op_splice<K,I,L,J>(s,t,op,2))); break;
    case P_REMOVE: ONE(pos,isPos(K::kinds[I]),(op_remove<K,I>(s,op))); break;
    case P_UNIQUE: ONE(pos,isPos(K::kinds[I]),(op_unique<K,I>(s,op))); break;
    case P_SORT: ONE(pos,isPos(K::kinds[I]),(op_sort<K,I>(s,op))); break;
    case P_REVERSE: ONE(pos,isPos(K::kinds[I]),(op_reverse<K,I>(s,op))); break;
    case P_RELOC: ONE(pos,isPos(K::kinds[I]),(op_reloc<K,I>(s,op))); break;
    case P_RELOC_RANGE: ONE(pos,isPos(K::kinds[I]),(op_reloc_range<K,I>(s,op))); break;
    case P_REARRANGE: ONE(pos,isPos(K::kinds[I]),(op_rearrange<K,I>(s,op))); break;
    case P_CAP: ONE(rnd,K::kinds[I]==K_RND,(op_cap<K,I>(s,op))); break;
    case H_REHASH: ONE(hash,K::kinds[I]==K_HASH,(op_rehash<K,I>(s,op))); break;
    case H_MLF: ONE(hash,K::kinds[I]==K_HASH,(op_mlf<K,I>(s,op))); break;
    case P_MERGE: SAMEK(({ int i_=pickIdx<K>(op.a[1],pos); if(i_>=0) withIdx<K>(i_,[&](auto I_){ constexpr int I=decltype(I_)::value; if constexpr(isPos(K::kinds[I])) op_list_merge<K,I>(s,t,op); }); })); break;
    case C_CLEAR: withSlot(op.a[0],[&](auto& s){ op_clear(s,op); }); break;
    case C_COPY: SAMEK(op_copy(s,t,op)); break;
    case C_MOVE: SAMEK(op_move(s,t,op)); break;
    case C_COPY_ASSIGN: SAMEK(op_copy_assign(s,t,op)); break;
    case C_MOVE_ASSIGN: SAMEK(op_move_assign(s,t,op)); break;
    case C_INIT_ASSIGN: withSlot(op.a[0],[&](auto& s){ op_init_assign(s,op); }); break;
    case C_SWAP: SAMEK(op_swap(s,t,op)); break;
    case C_RECREATE: withSlot(op.a[0],[&](auto& s){ op_recreate(s,op); }); break;
    case C_COMPARE: SAMEK(({ int i_=pickIdx<K>(op.a[1],any); withIdx<K>(i_,[&](auto I_){ constexpr int I=decltype(I_)::value; op_compare<K,I>(s,t,op); }); })); break;
    case I_TAKE: ONE(any,true,(op_iter_take<K,I>(s,op))); break;
    case I_USE: op_iter_use(op); break;
    case I_DROP: op_iter_drop(op); break;
#ifdef SIM_SAFE
    case I_BAD: withSlot(op.a[0],[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type::Cfg K; withIdx<K>(pickIdx<K>(op.a[1],any),[&](auto I_){ constexpr int I=decltype(I_)::value; withSlot(op.a[2],[&](auto& t){ op_iter_bad<K,I>(s,t,op); }); }); }); break;
#endif
#ifdef SIM_SER
    case S_ROUND: SAMEK(op_round(s,t,op)); break;
    case S_FAULT_SAVE: withSlot(op.a[0],[&](auto& s){ op_fault_save(s,op); }); break;
    case S_FAULT_LOAD: SAMEK(op_fault_load(s,t,op)); break;
#endif
#ifdef SIM_INV
    case V_SPOIL: ONE(any,true,(op_spoil<K,I>(s,op))); break;
#endif
    default: break;
  }
#undef ONE
#undef PAIR
#undef SAMEK
}
} // namespace sim
#endif
