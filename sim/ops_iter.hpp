// (included inside class World) long-held iterators and (safe mode) invalid uses

template<class K,int I> using IterOf=typename K::C::template nth_index<I>::type::iterator;
template<class K,int I> using HoldOf=ItHolder<IterOf<K,I>,K::kinds[I]!=K_HASH>;

template<class K,int I> void op_iter_take(Slot<K>& s,const Op& o){
  static_assert(std::is_same<IterOf<KA,I>,IterOf<KB,I>>::value,"iterator types differ between the two configurations");
  size_t n=s.ord[I].size(),p=o.a[3]%(n+1); 
  optags("C07,C17");
  ItEnt e; e.state=IT_VALID; e.sid=s.sid; e.idx=I; e.p=p<n?s.ord[I][p]:nullptr; e.birth=e.p?e.p->birth:0; e.typeA=true;
  auto it=itAt<K,I>(s,p);
  if((o.a[4]&3)==0){ constexpr int J=(I+1)%K::N; auto jt=s.c->template project<J>(it); it=s.c->template project<I>(jt); }
  e.h.reset(new HoldOf<K,I>(it));
  if(its.size()>=PROF.poolMax) its.erase(its.begin()+o.a[5]%its.size());
  its.push_back(std::move(e));
}
void op_iter_drop(const Op& o){ if(its.size()) its.erase(its.begin()+o.a[3]%its.size()); }
// assign a held iterator to another, copy it, swap
void op_iter_use(const Op& o){
  optags("C07,C17");
  if(its.size()<2) return;
  ItEnt& a=its[o.a[3]%its.size()]; ItEnt& b=its[o.a[4]%its.size()];
  if(&a==&b||a.idx!=b.idx||b.state!=IT_VALID) return;
  CallRes r=call([&]{ a.h->assign(b.h.get()); }); outcome(r,"C07",true);
  a.state=b.state; a.sid=b.sid; a.p=b.p; a.birth=b.birth;
  if(!a.h->equal(b.h.get())) fail("iterator","C07,C17","an assigned iterator differs from its source");
}
template<class K> std::unique_ptr<ItBase> endHolder(Slot<K>& s,int idx){ std::unique_ptr<ItBase> r; withIdx<K>(idx,[&](auto I){ constexpr int i=decltype(I)::value; r.reset(new HoldOf<K,i>(s.c->template get<i>().end())); }); return r; }
void checkIters(){
  if(its.empty()) return;
  Disarm d_;
  g_optags="";
  for(auto& e:its){
    if(e.state!=IT_VALID) continue;
    if(e.p){
      int sid=-1; eachSlot([&](auto& s){ const Ent* x=s.c?s.cont.find(e.p):nullptr; if(x&&x->birth==e.birth) sid=s.sid; });
      if(sid<0){ e.state=IT_STALE; continue; }
      e.sid=sid;
#ifdef SIM_SAFE
      try{ if(e.h->deref()!=e.p) fail("iterator","C07,C17","a held iterator no longer refers to its element"); }
      catch(SafeError& x){ fail("safe-mode-false-alarm","C17","dereferencing a valid held iterator of index %d was reported as error %d",e.idx,x.code); }
#else
      if(e.h->deref()!=e.p) fail("iterator","C07","a held iterator no longer refers to its element");
#endif
    }
  }
#ifndef SIM_SAFE
  its.erase(std::remove_if(its.begin(),its.end(),[](const ItEnt& e){ return e.state!=IT_VALID; }),its.end());
#endif
  if(its.empty()) return;
  ItEnt& e=its[opno%its.size()];
  if(e.state!=IT_VALID) return;
#ifdef SIM_SAFE
  try{
#endif
  withSlot(e.sid,[&](auto& s){
    typedef typename std::remove_reference<decltype(s)>::type::Cfg K;
    const Seq& v=s.ord[e.idx]; size_t n=v.size(),p=n; if(e.p) for(size_t j=0;j<n;++j) if(v[j]==e.p) p=j;
    auto end=endHolder<K>(s,e.idx);
    if(e.h->equal(end.get())!=(p==n)) fail("iterator","C07,C17","a held iterator compares wrongly with end()");
    std::unique_ptr<ItBase> c(e.h->clone());
    if(p<n){ c->inc(); if(c->equal(end.get())!=(p+1==n)||(p+1<n&&c->deref()!=v[p+1])) fail("iterator",tagsI<K>(e.idx,"C07,C17").c_str(),"a held iterator steps forward to something else than the next element"); }
    if(e.h->hasDec()&&p>0){ c.reset(e.h->clone()); c->dec(); if(c->deref()!=v[p-1]) fail("iterator",tagsI<K>(e.idx,"C07,C17").c_str(),"a held iterator steps back to something else than the previous element"); }
  });
#ifdef SIM_SAFE
  }catch(SafeError& x){ fail("safe-mode-false-alarm","C17","a valid held iterator was reported as error %d",x.code); }
#endif
}

#ifdef SIM_INV
// with invariant checking on, an element whose key is changed behind the container's back is noticed by the next operation
template<class K,int I> void op_spoil(Slot<K>& s,const Op& o){
  constexpr Kind kd=K::kinds[I]; auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size();
  optags("C23"); EP x=nullptr; Content c2; (void)ix; bool bad=false;
  if constexpr(isOrd(kd)){
    // the first made greater than all others, or the last smaller: its neighbour in the tree is on the wrong side, whatever the shape
    if(n>=2&&o.a[3]%4){ bool last=o.a[3]&4; x=last?s.ord[I].back():s.ord[I].front(); if(n==3&&(o.a[3]&8)) x=s.ord[I][1];   // (three elements: the one in the middle is the root)
      c2=x->c; auto& cm=s.st[I].c; for(size_t q=cm.size();q--;) c2.k[cm[q].f]=((cm[q].dir>0)!=last?1000000:-1000000); bad=true; }
  }
  if constexpr(kd==K_HASH){
    if(n&&o.a[3]%4){ x=s.ord[I][o.a[4]%n]; Elem e(x->c); auto b=ix.bucket(ix.key_extractor()(e)); for(u32 j=0;j<12&&!bad;++j){ e.c=x->c; Content m=mkContent(o.a[2]*31+j); for(auto& q:s.st[I].c) e.c.k[q.f]=m.k[q.f]; if(ix.bucket(ix.key_extractor()(e))!=b){ bad=true; c2=e.c; } } }
  }
  Content c1; if(bad){ c1=x->c; const_cast<Elem*>(x)->c=c2; }
  g_invExpected=bad; g_invHits=0; u32 seen=g_invSeen; unsigned j=o.a[5]%K::N,how=o.a[6]%2;
  CallRes r=call([&]{ withIdx<K>(j,[&](auto J_){ constexpr int J=decltype(J_)::value; auto& jx=s.c->template get<J>(); const Elem* none=nullptr;
    if(how==0) jx.erase(jx.end(),jx.end()); else if constexpr(isPos(K::kinds[J])) jx.insert(jx.end(),none,none); else jx.insert(none,none); }); });
  g_invExpected=false; if(bad) const_cast<Elem*>(x)->c=c1;
  outcome(r,"C23");
  if(g_invSeen==seen) fail("invariant-unchecked","C23","an operation ran no invariant check");
  if(bad&&!g_invHits) fail("invariant-miss","C23","an element of index %d whose key was changed behind the container's back was not noticed",I);
  logv(bad); judgeSame(s,"C01");
}
#endif
#ifdef SIM_SAFE
template<class F> void expectBad(int code,const char* what,F f){
  optags("C17");
  CallRes r=call(f);
  ++g.st.probes[code]; 
  if(!r.safe) fail("safe-mode-miss","C17","safe mode did not report %s",what);
  if(code==bmi::safe_mode::invalid_iterator&&(r.code==bmi::safe_mode::not_owner||r.code==bmi::safe_mode::not_same_owner)) return;   // true of an iterator that belongs nowhere, too
  if(r.code!=code) fail("safe-mode-code","C17","safe mode reported error %d for %s, expected %d",r.code,what,code);
}
template<class K,int I,class L> void op_iter_bad(Slot<K>& s,Slot<L>& t,const Op& o){
  constexpr Kind kd=K::kinds[I];
  auto& ix=s.c->template get<I>(); auto& jx=t.c->template get<I>(); size_t n=s.ord[I].size(),m=t.ord[I].size(); bool same=(void*)&s==(void*)&t;
  typedef IterOf<K,I> It; constexpr int J=(I+1)%K::N;
  using namespace bmi::safe_mode;
  if(o.a[3]&1){ op_iter_matrix<K,I,L>(s,t,o); return; }
  auto stale=[&]()->It*{ for(size_t k=0;k<its.size();++k){ ItEnt& e=its[(k+o.a[6])%its.size()]; if(e.idx==I&&e.state==IT_STALE) return &static_cast<HoldOf<K,I>*>(e.h.get())->it; } return nullptr; };
  size_t p=n?o.a[4]%n:0; Content c=mkContent(o.a[5]); Elem el(c); bool md=false;
  It own=n?itAt<K,I>(s,p):ix.end(); It* st=stale(); 
  switch((o.a[3]>>1)%34){
    case 0: { It x; expectBad(invalid_iterator,"dereferencing an uninitialised iterator",[&]{ (void)(*x).magic; }); } break;
    case 1: { It x; expectBad(invalid_iterator,"incrementing an uninitialised iterator",[&]{ ++x; }); } break;
    case 2: { auto x=ix.end(); expectBad(not_dereferenceable_iterator,"dereferencing end()",[&]{ (void)(*x).magic; }); } break;
    case 3: { auto x=ix.end(); expectBad(not_incrementable_iterator,"incrementing end()",[&]{ ++x; }); } break;
    case 4: if constexpr(kd!=K_HASH){ auto x=ix.begin(); expectBad(not_decrementable_iterator,"decrementing begin()",[&]{ --x; }); } break;
    case 5: expectBad(not_dereferenceable_iterator,"erasing end()",[&]{ ix.erase(ix.end()); }); break;
    case 6: if(!same&&m){ auto x=itAt<L,I>(t,o.a[4]%m); expectBad(not_owner,"erasing through an iterator of another container",[&]{ ix.erase(x); }); } break;
    case 7: if(n>=1){ size_t q=p+1+o.a[5]%(n-p); auto a=itAt<K,I>(s,q),b=itAt<K,I>(s,p); expectBad(invalid_range,"erasing a reversed range",[&]{ ix.erase(a,b); }); } break;
    case 8: if(!same){ auto a=itAt<L,I>(t,m?o.a[4]%(m+1):0); expectBad(not_same_owner,"comparing iterators of different containers",[&]{ (void)(own==a); }); } break;
    case 9: if(st){ expectBad(invalid_iterator,"dereferencing a stale iterator",[&]{ (void)(**st).magic; }); } break;
    case 10: if(st){ expectBad(invalid_iterator,"erasing through a stale iterator",[&]{ ix.erase(*st); }); } break;
    case 11: if(st){ expectBad(invalid_iterator,"incrementing a stale iterator",[&]{ ++*st; }); } break;
    case 12: if(st){ expectBad(invalid_iterator,"comparing with a stale iterator",[&]{ (void)(own==*st); }); } break;
    case 13: if(st){ It x; expectBad(invalid_iterator,"assigning from a stale iterator",[&]{ x=*st; }); } break;
    case 14: if(st){ expectBad(invalid_iterator,"modifying through a stale iterator",[&]{ ix.modify(*st,ModF{c,&md}); }); if(md) fail("safe-mode-late","C17","the modifier ran before the stale iterator was reported"); } break;
    case 15: if(st){ expectBad(invalid_iterator,"replacing through a stale iterator",[&]{ ix.replace(*st,el); }); } break;
    case 16: if(st){ expectBad(invalid_iterator,"projecting a stale iterator",[&]{ s.c->template project<J>(*st); }); } break;
    case 17: if(st){ expectBad(invalid_iterator,"extracting through a stale iterator",[&]{ ix.extract(*st); }); } break;
    case 18: if(st){ if constexpr(isPos(kd)) expectBad(invalid_iterator,"inserting at a stale iterator",[&]{ ix.insert(*st,el); }); else expectBad(invalid_iterator,"inserting with a stale hint",[&]{ ix.insert(*st,el); }); } break;
    case 19: expectBad(not_dereferenceable_iterator,"modifying end()",[&]{ ix.modify(ix.end(),ModF{c,&md}); }); break;
    case 20: expectBad(not_dereferenceable_iterator,"replacing end()",[&]{ ix.replace(ix.end(),el); }); break;
    case 21: expectBad(not_dereferenceable_iterator,"extracting end()",[&]{ ix.extract(ix.end()); }); break;
    case 22: if(!same){ auto x=itAt<L,I>(t,m?o.a[4]%(m+1):0); expectBad(not_owner,"inserting at an iterator of another container",[&]{ ix.insert(x,el); }); } break;
    case 23: if(!same){ auto x=itAt<L,I>(t,m?o.a[4]%(m+1):0); expectBad(not_owner,"projecting an iterator of another container",[&]{ s.c->template project<J>(x); }); } break;
    case 24: if(!same&&m){ auto x=itAt<L,I>(t,o.a[4]%m); expectBad(not_owner,"modifying through an iterator of another container",[&]{ ix.modify(x,ModF{c,&md}); }); } break;
    case 25: { HSlot& h=nh[o.a[6]%NH]; if(h.full&&h.alloc!=s.alloc){ expectBad(unequal_allocators,"inserting a node with an unequal allocator",[&]{ if constexpr(isPos(kd)) ix.insert(ix.end(),std::move(h.h)); else ix.insert(std::move(h.h)); }); hCheck(h); } } break;
    case 26: if constexpr(isKey(kd)){ if(!same&&s.alloc!=t.alloc&&m){ auto x=itAt<L,I>(t,o.a[4]%m); if(o.a[6]&1) expectBad(unequal_allocators,"merging from a container with an unequal allocator",[&]{ ix.merge(jx); }); else expectBad(unequal_allocators,"merging from a container with an unequal allocator",[&]{ ix.merge(jx,x); }); } } break;
    case 27: if constexpr(isKey(kd)){ if(!same&&n&&s.alloc==t.alloc){ expectBad(not_owner,"merging an element that is not in the source",[&]{ ix.merge(jx,own); }); } } else if(!same&&n){ expectBad(not_owner,"splicing an element that is not in the source",[&]{ ix.splice(ix.end(),jx,own); }); } break;
    case 28: if constexpr(isPos(kd)){ if(n){ expectBad(inside_range,"splicing a container before one of its own elements",[&]{ ix.splice(own,ix); }); } } else if(s.alloc==t.alloc){ expectBad(not_dereferenceable_iterator,"merging end()",[&]{ ix.merge(jx,jx.end()); }); } break;
    case 29: if constexpr(isPos(kd)){ if(n){ size_t b=o.a[5]%(p+1),e=p+1+o.a[6]%(n-p); auto x=itAt<K,I>(s,b),y=itAt<K,I>(s,e); if(o.a[7]&1) expectBad(inside_range,"relocating a range into itself",[&]{ ix.relocate(own,x,y); }); else expectBad(inside_range,"splicing a range into itself",[&]{ ix.splice(own,ix,x,y); }); } } break;
    case 30: if constexpr(kd==K_RND){ size_t k=n+o.a[5]%3; expectBad(out_of_bounds,"operator[] beyond the size",[&]{ (void)ix[k].magic; }); } break;
    case 31: if constexpr(kd==K_RND){ std::ptrdiff_t k=(o.a[5]&1)?(std::ptrdiff_t)(n-p)+1+(o.a[6]%3):-(std::ptrdiff_t)p-1-(std::ptrdiff_t)(o.a[6]%3); It x=own; if(o.a[7]&1) expectBad(out_of_bounds,"advancing an iterator out of bounds",[&]{ x+=k; }); else expectBad(out_of_bounds,"advancing an iterator out of bounds",[&]{ x-=-k; }); } break;
    case 32: if constexpr(isPos(kd)){ if(!same&&m&&n){ auto x=itAt<L,I>(t,o.a[4]%m); expectBad(not_owner,"relocating an element of another container",[&]{ ix.relocate(ix.begin(),x); }); } if(!n) expectBad(kd==K_RND?not_dereferenceable_iterator:not_dereferenceable_iterator,"pop_front() on an empty container",[&]{ ix.pop_front(); }); } break;
    default: if(st){ if constexpr(isPos(kd)) expectBad(invalid_iterator,"relocating to a stale position",[&]{ ix.relocate(*st,own); }); else { auto cp=*st; expectBad(invalid_iterator,"using a copy of a stale iterator",[&]{ (void)(*cp).magic; }); } } break;
  }
  judgeSame(s,"C17"); if(!same) judgeSame(t,"C17");
}

// every operation that takes an iterator, times every kind of iterator it must reject
template<class K,int I,class L> void op_iter_matrix(Slot<K>& s,Slot<L>& t,const Op& o){
  constexpr Kind kd=K::kinds[I];
  auto& ix=s.c->template get<I>(); auto& jx=t.c->template get<I>(); size_t n=s.ord[I].size(),m=t.ord[I].size(); bool same=(void*)&s==(void*)&t;
  typedef IterOf<K,I> It; constexpr int J=(I+1)%K::N;
  using namespace bmi::safe_mode;
  if(s.alloc!=t.alloc) return;
  Content c=mkContent(o.a[5]); Elem el(c); bool md=false; ModF mf{c,&md};
  size_t p=n?o.a[6]%(n+1):0,q=p+(n>p?o.a[7]%(n-p+1):0); It own=itAt<K,I>(s,p),upto=itAt<K,I>(s,q);
  size_t jp=m?o.a[6]%(m+1):0,jq=jp+(m>jp?o.a[7]%(m-jp+1):0); It jf=itAt<L,I>(t,jp),jl=itAt<L,I>(t,jq);
  It bad; int code=-1; const char* nm=""; 
  // an iterator that is no good for container 'who' (0: s, 1: t)
  auto pick=[&](int who,bool deref)->bool{
    switch((o.a[3]>>1)%4){
      case 0: code=invalid_iterator; nm="an uninitialised iterator"; return true;
      case 1: for(size_t k=0;k<its.size();++k){ ItEnt& e=its[(k+o.a[6])%its.size()]; if(e.idx==I&&e.state==IT_STALE){ new(&bad) It(static_cast<HoldOf<K,I>*>(e.h.get())->it); code=invalid_iterator; nm="a stale iterator"; return true; } } return false;
      case 2: { if(same) return false; size_t z=who?n:m; if(deref&&!z) return false; size_t k=deref?o.a[7]%z:o.a[7]%(z+1); bad=who?itAt<K,I>(s,k):itAt<L,I>(t,k); code=not_owner; nm="an iterator of another container"; return true; }
      default: if(!deref) return false; bad=who?jx.end():ix.end(); code=not_dereferenceable_iterator; nm="end()"; return true;
    }
  };
#define BAD(WHO,DEREF,WHAT,...) if(pick(WHO,DEREF)){ std::string w_=std::string(WHAT)+" "+nm; ++g.st.probes[20+(o.a[3]>>1)%4]; expectBad(code,w_.c_str(),[&]{ __VA_ARGS__; }); }
  std::vector<Elem> src; size_t k=o.a[7]%3; { Disarm d_; for(size_t j=0;j<k;++j) src.push_back(Elem(mkContent(o.a[5]+977*(u32)j))); }
  HSlot& h=nh[o.a[6]%NH]; bool hok=!h.full||h.alloc==s.alloc;
  size_t rp=n>=1?o.a[6]%n:0,rq=n>=1?rp+1+o.a[7]%(n-rp):0;   // rp<rq
  u32 which=o.a[4];
  if(which&1){
    switch((which>>1)%16){
      case 0: BAD(0,true,"erasing through",ix.erase(bad)) break;
      case 1: BAD(0,false,"erasing a range that begins at",ix.erase(bad,upto)) break;
      case 2: BAD(0,false,"erasing a range that ends at",ix.erase(own,bad)) break;
      case 3: BAD(0,true,"extracting through",ix.extract(bad)) break;
      case 4: BAD(0,true,"replacing (copy) through",ix.replace(bad,el)) break;
      case 5: BAD(0,true,"replacing (move) through",ix.replace(bad,std::move(el))) break;
      case 6: BAD(0,true,"modifying through",ix.modify(bad,mf)) break;
      case 7: BAD(0,true,"modifying (with rollback) through",ix.modify(bad,mf,mf)) break;
      case 8: BAD(0,false,"projecting",s.c->template project<J>(bad)) break;
      case 9: BAD(0,false,"projecting (const)",const_cast<const typename K::C&>(*s.c).template project<J>(bad)) break;
      case 10: if(n) expectBad(invalid_range,"erasing a reversed range",[&]{ ix.erase(itAt<K,I>(s,rq),itAt<K,I>(s,rp)); }); break;
      case 11: BAD(0,false,"projecting (free function)",bmi::project<J>(*s.c,bad)) break;
      case 12: BAD(0,false,"projecting onto its own index",s.c->template project<I>(bad)) break;
      case 13: if((o.a[3]>>1)%4!=3&&pick(0,false)){ if(code==not_owner) expectBad(not_same_owner,"comparing with an iterator of another container",[&]{ (void)(own==bad); }); else if(o.a[7]&1) expectBad(code,"comparing with a bad iterator",[&]{ (void)(own==bad); }); else expectBad(code,"comparing a bad iterator",[&]{ (void)(bad!=own); }); } break;
      case 14: if((o.a[3]>>1)%4<2&&pick(0,false)){ It x(own); expectBad(code,"assigning from a bad iterator",[&]{ x=bad; }); if(!(x==own)) fail("safe-mode-late","C17","the assignment took place although it was reported"); } break;
      default: if((o.a[3]>>1)%4<2&&pick(0,false)){ if(o.a[7]&1) expectBad(code,"incrementing a bad iterator",[&]{ bad++; }); else expectBad(code,"dereferencing a bad iterator",[&]{ (void)bad->magic; }); } break;
    }
  }
  else if constexpr(isPos(kd)){
    switch((which>>1)%24){
      case 0: BAD(0,false,"inserting (copy) at",ix.insert(bad,el)) break;
      case 1: BAD(0,false,"inserting (move) at",ix.insert(bad,std::move(el))) break;
      case 2: BAD(0,false,"emplacing at",ix.emplace(bad,el)) break;
      case 3: BAD(0,false,"inserting n copies at",ix.insert(bad,k,el)) break;
      case 4: BAD(0,false,"inserting a range at",ix.insert(bad,src.begin(),src.end())) break;
      case 5: BAD(0,false,"inserting an initializer list at",ix.insert(bad,{el,el})) break;
      case 6: if(hok){ BAD(0,false,"inserting a node at",ix.insert(bad,std::move(h.h))) hCheck(h); } break;
      case 7: BAD(0,false,"splicing (same container) at",ix.splice(bad,ix)) break;
      case 8: BAD(0,false,"splicing a container at",ix.splice(bad,jx)) break;
      case 9: if(jp<m){ BAD(0,false,"splicing an element at",ix.splice(bad,jx,jf)) } break;
      case 10: BAD(1,true,"splicing (element) through",ix.splice(own,jx,bad)) break;
      case 11: BAD(0,false,"splicing a range at",ix.splice(bad,jx,jf,jl)) break;
      case 12: BAD(1,false,"splicing a range that begins at",ix.splice(ix.end(),jx,bad,jl)) break;
      case 13: BAD(1,false,"splicing a range that ends at",ix.splice(ix.end(),jx,jf,bad)) break;
      case 14: if(p<n){ BAD(0,false,"relocating to",ix.relocate(bad,own)) } break;
      case 15: BAD(0,true,"relocating through",ix.relocate(upto,bad)) break;
      case 16: BAD(0,false,"relocating a range to",ix.relocate(bad,own,upto)) break;
      case 17: BAD(0,false,"relocating a range that begins at",ix.relocate(ix.end(),bad,upto)) break;
      case 18: BAD(0,false,"relocating a range that ends at",ix.relocate(ix.end(),own,bad)) break;
      case 19: if(n) expectBad(invalid_range,"relocating a reversed range",[&]{ ix.relocate(ix.end(),itAt<K,I>(s,rq),itAt<K,I>(s,rp)); }); break;
      case 20: if(m){ size_t a=o.a[6]%m,b=a+1+o.a[7]%(m-a); expectBad(invalid_range,"splicing a reversed range",[&]{ ix.splice(ix.end(),jx,itAt<L,I>(t,b),itAt<L,I>(t,a)); }); } break;
      case 21: if(!n){ if(o.a[7]&1) expectBad(not_dereferenceable_iterator,"pop_front() on an empty container",[&]{ ix.pop_front(); }); else expectBad(kd==K_RND?out_of_bounds:not_dereferenceable_iterator,"front() of an empty container",[&]{ (void)ix.front().magic; }); } break;
      case 22: if(!n){ if(o.a[7]&1) expectBad(not_decrementable_iterator,"pop_back() on an empty container",[&]{ ix.pop_back(); }); else expectBad(kd==K_RND?out_of_bounds:not_decrementable_iterator,"back() of an empty container",[&]{ (void)ix.back().magic; }); } break;
      default: if constexpr(kd==K_RND){ if((o.a[3]>>1)%4<3&&pick(0,false)){
          int cc=code==not_owner?(int)not_same_owner:code;
          switch(o.a[7]%4){
            case 0: expectBad(cc,"subtracting a bad iterator",[&]{ (void)(own-bad); }); break;
            case 1: expectBad(cc,"subtracting from a bad iterator",[&]{ (void)(bad-own); }); break;
            case 2: expectBad(cc,"ordering a bad iterator",[&]{ (void)(bad<own); }); break;
            default: if(code!=not_owner) expectBad(cc,"advancing a bad iterator",[&]{ bad+=0; }); break;
          } } } break;
    }
  }
  else{
    switch((which>>1)%12){
      case 0: BAD(0,false,"inserting (copy) with the hint",ix.insert(bad,el)) break;
      case 1: BAD(0,false,"inserting (move) with the hint",ix.insert(bad,std::move(el))) break;
      case 2: BAD(0,false,"emplacing with the hint",ix.emplace_hint(bad,el)) break;
      case 3: if(hok){ BAD(0,false,"inserting a node with the hint",ix.insert(bad,std::move(h.h))) hCheck(h); } break;
      case 4: BAD(1,true,"merging (element) through",ix.merge(jx,bad)) break;
      case 5: BAD(1,false,"merging a range that begins at",ix.merge(jx,bad,jl)) break;
      case 6: BAD(1,false,"merging a range that ends at",ix.merge(jx,jf,bad)) break;
      case 7: if constexpr(K::ncs[I]==1){ BAD(0,true,"modify_key through",ix.modify_key(bad,ModKeyBad{&md})) } break;
      case 8: if constexpr(K::ncs[I]==1){ BAD(0,true,"modify_key (with rollback) through",ix.modify_key(bad,ModKeyBad{&md},ModKeyBad{&md})) } break;
      case 9: if constexpr(kd==K_RNK){ BAD(0,false,"asking the rank of",ix.rank(bad)) } break;
      case 10: if(m){ size_t a=o.a[6]%m,b=a+1+o.a[7]%(m-a); expectBad(invalid_range,"merging a reversed range",[&]{ ix.merge(jx,itAt<L,I>(t,b),itAt<L,I>(t,a)); }); } break;
      default: if(!n){ auto x=ix.end(); expectBad(not_dereferenceable_iterator,"erasing begin() of an empty container",[&]{ ix.erase(ix.begin()); }); } break;
    }
  }
#undef BAD
  if(md) fail("safe-mode-late","C17","a modifier ran although the iterator was reported");
  if(el.magic!=Elem::ALIVE||!(el.c==c)) fail("safe-mode-late","C17","the argument was moved from although the iterator was reported");
  judgeSame(s,"C17"); if(!same) judgeSame(t,"C17");
}
struct ModKeyBad{ bool* ran; template<class X> void operator()(X&)const{ *ran=true; } };
#endif
