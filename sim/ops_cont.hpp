// (included inside class World) whole-container operations

// functor state as the container itself reports it
template<class K,int i> static IdxState readState(typename K::C& c){
  Disarm d_; IdxState r; auto& ix=c.template get<i>(); constexpr Kind kd=K::kinds[i]; (void)ix;
  if constexpr(isKey(kd)){
    auto ke=ix.key_extractor();
    auto one=[&](const auto& k,int dir,int div){ r.c.push_back(Comp{k.f,dir,div}); };
    if constexpr(isOrd(kd)){
      auto cm=ix.key_comp();
      if constexpr(K::ncs[i]==1) one(ke,cm.dir,cm.div);
      else{ auto& ks=ke.key_extractors(); auto& cs=cm.key_comps(); one(ks.template get<0>(),cs.template get<0>().dir,cs.template get<0>().div); one(ks.template get<1>(),cs.template get<1>().dir,cs.template get<1>().div); if constexpr(K::ncs[i]>2) one(ks.template get<2>(),cs.template get<2>().dir,cs.template get<2>().div); }
    }
    else{
      auto hf=ix.hash_function(); auto eq=ix.key_eq();
      if constexpr(K::ncs[i]==1){ one(ke,1,eq.div); r.hmode=hf.mode; }
      else{ auto& ks=ke.key_extractors(); auto& es=eq.key_eqs(); one(ks.template get<0>(),1,es.template get<0>().div); one(ks.template get<1>(),1,es.template get<1>().div); if constexpr(K::ncs[i]>2) one(ks.template get<2>(),1,es.template get<2>().div); r.hmode=hf.key_hash_functions().template get<0>().mode; }
    }
  }
  return r;
}
template<class K> static std::vector<IdxState> readStates(typename K::C& c){ std::vector<IdxState> v(K::N); withEachIdx<K>([&](auto I){ constexpr int i=decltype(I)::value; v[i]=readState<K,i>(c); }); return v; }
template<class K> static bool sameStates(const std::vector<IdxState>& a,const std::vector<IdxState>& b){
  for(int i=0;i<K::N;++i){ if(a[i].c.size()!=b[i].c.size()) return false; for(size_t j=0;j<a[i].c.size();++j){ auto&x=a[i].c[j]; auto&y=b[i].c[j]; if(x.f!=y.f||x.div!=y.div||(isOrd(K::kinds[i])&&x.dir!=y.dir)) return false; } if(K::kinds[i]==K_HASH&&a[i].hmode!=b[i].hmode) return false; }
  return true;
}
template<class K> void expectConfig(Slot<K>& s,const std::vector<IdxState>& st,u32 al,const char* tags){
  if(!sameStates<K>(readStates<K>(*s.c),st)) fail("functors",tags,"a container holds other key extraction, comparison or hashing objects than expected");
  if(s.c->get_allocator().id!=al) fail("allocator",(std::string("C06,")+tags).c_str(),"a container has allocator %u, expected %u",s.c->get_allocator().id,al);
  s.st=st; s.alloc=al;
}
// whatever a moved-from container is, it must be consistent
template<class K> void refresh(Slot<K>& s){ s.st=readStates<K>(*s.c); s.alloc=s.c->get_allocator().id; Obs<K> o; observe(s,o); adopt(s,o); }

typedef std::vector<std::vector<Content>> Shape;
template<class K> Shape shape(const Slot<K>& s){ Shape r(K::N); for(int i=0;i<K::N;++i) for(EP p:s.ord[i]) r[i].push_back(s.cont.find(p)->c); return r; }
static bool cless(const Content& a,const Content& b){ int r=memcmp(a.k,b.k,sizeof a.k); return r?r<0:a.id<b.id; }
template<class K> void expectShape(const Obs<K>& o,Shape sh,const char* tags){
  for(int i=0;i<K::N;++i){
    std::vector<Content> v; for(EP p:o.ord[i]) v.push_back(p->c);
    if(v.size()!=sh[i].size()) fail("elements",tags,"a container holds %lu elements, expected %lu",(unsigned long)v.size(),(unsigned long)sh[i].size());
    if(K::kinds[i]==K_HASH){ std::sort(v.begin(),v.end(),cless); std::sort(sh[i].begin(),sh[i].end(),cless); }
    for(size_t j=0;j<v.size();++j) if(v[j]!=sh[i][j]) fail(K::kinds[i]==K_HASH?"elements":"order",tagsI<K>(i,tags).c_str(),"index %d of a copy differs from the original at position %lu",i,(unsigned long)j);
  }
}
template<class K> void expectDistinct(const Obs<K>& o,const Cont& src,const char* tags){ for(auto& e:o.cont.v) if(src.find(e.p)&&src.find(e.p)->birth==e.birth) fail("shared-element",tags,"a copy shares an element with its source"); }
// exact same objects in the same order
template<class K> void expectObjects(const Obs<K>& o,const std::vector<Seq>& ord,const Cont& cont,const char* tags){
  std::string tg=std::string("C07,")+tags;
  if(o.cont.size()!=cont.size()) fail("elements",tg.c_str(),"a container holds %lu elements, expected %lu",(unsigned long)o.cont.size(),(unsigned long)cont.size());
  for(size_t j=0;j<cont.size();++j) if(o.cont.v[j].p!=cont.v[j].p||o.cont.v[j].birth!=cont.v[j].birth||o.cont.v[j].c!=cont.v[j].c) fail("elements",tg.c_str(),"elements were not handed over as the same objects");
  for(int i=0;i<K::N;++i) if(K::kinds[i]!=K_HASH&&o.ord[i]!=ord[i]) fail("order",tagsI<K>(i,tg.c_str()).c_str(),"index %d changed its order when handed over",i);
}
void dropEnds(int sid){ for(auto& e:its) if(!e.p&&e.sid==sid){ e.state=IT_DROP; } its.erase(std::remove_if(its.begin(),its.end(),[](const ItEnt& e){return e.state==IT_DROP;}),its.end()); }
u32 allocOf(u32 x){ return POL&POL_AEQ?1:1+x%kn.nalloc; }

template<class K> void op_clear(Slot<K>& s,const Op& o){
  optags("C01,C06"); 
  CallRes r=call([&]{ if(o.a[3]&1) s.c->clear(); else s.c->template get<K::N-1>().clear(); });
  outcome(r,"C03",true); Want w; wantSame(s,w); for(auto& e:s.cont.v) wantDel(s,w,e.p); Obs<K> ob; observe(s,ob); judge(s,ob,w,"C01"); adopt(s,ob);
}
// s becomes a copy of (or takes over) t
template<class K> void replaceBy(Slot<K>& s,typename K::C* n){ { Arm a; delete s.c; } s.c=n; }
template<class K> void op_copy(Slot<K>& s,Slot<K>& t,const Op& o){
  bool al=o.a[3]&1; u32 want=al?allocOf(o.a[4]):typename K::alloc(t.alloc).select_on_container_copy_construction().id;
  Shape sh=shape(t); Cont old=t.cont; typedef typename K::C C; C* volatile made=nullptr;
  optags("C14");
  void* raw; { Disarm d; raw=::operator new(sizeof(C)); }
  CallRes r=call([&]{ if(al) made=new(raw) C(*t.c,typename K::alloc(want)); else made=new(raw) C(*t.c); });
  if(r.threw) ::operator delete(raw);
  outcome(r,"C14");
  judgeSame(t,"C14");
  if(r.threw) return;
  auto st=t.st;
  dropEnds(s.sid); 
  Slot<K> tmp; tmp.c=made; 
  expectConfig(tmp,st,want,"C14"); Obs<K> ob; observe(tmp,ob); expectDistinct(ob,old,"C14"); expectShape(ob,sh,"C14");
  replaceBy(s,made); s.st=st; s.alloc=want; Obs<K> oc; observe(s,oc); expectShape(oc,sh,"C14"); adopt(s,oc);
}
template<class K> void op_move(Slot<K>& s,Slot<K>& t,const Op& o){
  bool al=o.a[3]&1; u32 want=al?allocOf(o.a[4]):t.alloc; bool eq=want==t.alloc; typedef typename K::C C; C* volatile made=nullptr;
  Shape sh=shape(t); auto ord=t.ord; Cont cont=t.cont; auto st=t.st;
  optags("C14");
  void* raw; { Disarm d; raw=::operator new(sizeof(C)); }
  CallRes r=call([&]{ if(al) made=new(raw) C(std::move(*t.c),typename K::alloc(want)); else made=new(raw) C(std::move(*t.c)); });
  if(r.threw) ::operator delete(raw);
  outcome(r,"C14");
  if(r.threw){ if(eq) judgeSame(t,"C14,C07"); else refresh(t); return; }
  dropEnds(s.sid); dropEnds(t.sid);
  Slot<K> tmp; tmp.c=made; expectConfig(tmp,st,want,"C14"); Obs<K> ob; observe(tmp,ob);
  if(eq) expectObjects(ob,ord,cont,"C14"); else{ expectDistinct(ob,cont,"C14"); expectShape(ob,sh,"C14"); }
  refresh(t);
  replaceBy(s,made); s.st=st; s.alloc=want; refresh(s);
}
template<class K> void op_copy_assign(Slot<K>& s,Slot<K>& t,const Op& o){
  bool self=&s==&t; bool ixl=o.a[3]&1; u32 want=(POL&POL_CCA)?t.alloc:s.alloc; Shape sh=shape(t); Cont old=t.cont; auto st=t.st;
  optags("C14");
  CallRes r=call([&]{ if(ixl) s.c->template get<K::N-1>()=t.c->template get<K::N-1>(); else *s.c=*t.c; });
  outcome(r,"C14");
  if(!self) judgeSame(t,"C14");
  if(r.threw){ judgeSame(s,"C14"); return; }
  dropEnds(s.sid);
  expectConfig(s,st,want,"C14"); Obs<K> ob; observe(s,ob); if(!self) expectDistinct(ob,old,"C14"); expectShape(ob,sh,"C14"); adopt(s,ob);
}
template<class K> void op_move_assign(Slot<K>& s,Slot<K>& t,const Op&){
  bool self=&s==&t; bool prop=(POL&POL_CMA)!=0; bool eq=s.alloc==t.alloc; u32 want=prop?t.alloc:s.alloc; Shape sh=shape(t); auto ord=t.ord; Cont cont=t.cont; auto st=t.st;
  optags("C14");
  CallRes r=call([&]{ *s.c=std::move(*t.c); });
  outcome(r,"C14",prop||eq);
  if(r.threw){ judgeSame(s,"C14"); if(!self) refresh(t); return; }
  dropEnds(s.sid); dropEnds(t.sid);
  if(self){ refresh(s); return; }
  expectConfig(s,st,want,"C14"); Obs<K> ob; observe(s,ob);
  if(prop||eq) expectObjects(ob,ord,cont,"C14"); else{ expectDistinct(ob,cont,"C14"); expectShape(ob,sh,"C14"); }
  adopt(s,ob); refresh(t);
}
template<class K> void op_init_assign(Slot<K>& s,const Op& o){
  u32 m=o.a[3]%5; auto cs=manyContents(o.a[2],m); std::vector<Elem> e; e.reserve(m+1); for(auto& c:cs) e.emplace_back(c); bool ixl=o.a[4]&1;
  optags("C14");
  auto& ix=s.c->template get<K::N-1>(); auto& c=*s.c; auto st=s.st; u32 al=s.alloc;
  CallRes r=call([&]{
    switch(m){
      case 0:{ std::initializer_list<Elem> l={}; if(ixl) ix=l; else c=l; }break;
      case 1: if(ixl) ix={e[0]}; else c={e[0]}; break;
      case 2: if(ixl) ix={e[0],e[1]}; else c={e[0],e[1]}; break;
      case 3: if(ixl) ix={e[0],e[1],e[2]}; else c={e[0],e[1],e[2]}; break;
      default: if(ixl) ix={e[0],e[1],e[2],e[3]}; else c={e[0],e[1],e[2],e[3]};
    }
  });
  outcome(r,"C14");
  if(r.threw){ judgeSame(s,"C14"); return; }
  dropEnds(s.sid);
  expectConfig(s,st,al,"C14");
  Obs<K> ob; observe(s,ob); Want w; wantSame(s,w); for(auto& x:s.cont.v) wantDel(s,w,x.p);
  for(auto& q:cs) if(conflicts(s,w,q,nullptr).empty()) wantNew(s,w,q,-1,-1,true);
  judgeFresh(s,ob,w,"C14,C02"); adopt(s,ob);
}
template<class K> void op_swap(Slot<K>& s,Slot<K>& t,const Op& o){
  if(&s!=&t&&s.alloc!=t.alloc&&!(POL&POL_SWAP)) return;
  auto so=s.ord,to=t.ord; Cont sc=s.cont,tc=t.cont; auto ss=s.st,ts=t.st; u32 sal=s.alloc,tal=t.alloc; u32 how=o.a[3]%4;
  optags("C14");
  CallRes r=call([&]{
    switch(how){ case 0: s.c->swap(*t.c); break; case 1: swap(*s.c,*t.c); break; case 2: s.c->template get<K::N-1>().swap(t.c->template get<K::N-1>()); break; default: swap(s.c->template get<0>(),t.c->template get<0>()); } });
  outcome(r,"C14",true);
  if(&s==&t){ judgeSame(s,"C14"); return; }
  dropEnds(s.sid); dropEnds(t.sid);
  expectConfig(s,ts,(POL&POL_SWAP)?tal:sal,"C14"); expectConfig(t,ss,(POL&POL_SWAP)?sal:tal,"C14");
  Obs<K> a; observe(s,a); Obs<K> b; observe(t,b);
  expectObjects(a,to,tc,"C14"); expectObjects(b,so,sc,"C14"); adopt(s,a); adopt(t,b);
}
template<class K> void op_recreate(Slot<K>& s,const Op& o){
  dropEnds(s.sid); destroy(s); checkIters();
  u32 m=o.a[3]%9; auto cs=manyContents(o.a[2],m); 
  create(s,o.a[4],allocOf(o.a[5]),m?&cs:nullptr);
}
template<class K,int I> void op_compare(Slot<K>& s,Slot<K>& t,const Op& o){
  constexpr Kind kd=K::kinds[I];
  auto &x=s.c->template get<I>(),&y=t.c->template get<I>(); std::vector<Content> a,b; for(EP p:s.ord[I]) a.push_back(p->c); for(EP p:t.ord[I]) b.push_back(p->c);
  std::string tg=std::string("C21"); optags(tg.c_str());
  if constexpr(kd==K_HASH){
    bool eq=false,ne=false; CallRes r=call([&]{ eq=x==y; ne=x!=y; }); outcome(r,"C21");
    if(!r.threw&&sameStates<K>(s.st,t.st)){
      // groups of equivalent keys must be permutations of each other under ==
      bool want=a.size()==b.size(); std::vector<char> used(b.size(),0);
      if(want) for(auto& p:a){ bool f=false; for(size_t j=0;j<b.size()&&!f;++j) if(!used[j]&&equiv(s.st[I],p,b[j])&&elem_eq(p,b[j])){ used[j]=1; f=true; } if(!f){ want=false; break; } }
      logv(want); ++g.st.probes[40+want];
      if(eq!=want||ne==want) fail("comparison","C21","comparing hashed index %d gives %d, as collections they are %s",I,(int)eq,want?"equal":"different");
    }
  }
  else{
    bool res[6]={0}; bool whole=I==0&&(o.a[4]&1);
    CallRes r=call([&]{ if(whole){ if constexpr(I==0){ auto &p=*s.c,&q=*t.c; res[0]=p==q; res[1]=p!=q; res[2]=p<q; res[3]=p>q; res[4]=p<=q; res[5]=p>=q; } } else { res[0]=x==y; res[1]=x!=y; res[2]=x<y; res[3]=x>y; res[4]=x<=y; res[5]=x>=y; } });
    outcome(r,"C21");
    if(!r.threw){
      bool eq=a.size()==b.size()&&std::equal(a.begin(),a.end(),b.begin(),elem_eq);
      bool lt=std::lexicographical_compare(a.begin(),a.end(),b.begin(),b.end(),elem_less),gt=std::lexicographical_compare(b.begin(),b.end(),a.begin(),a.end(),elem_less);
      logv(eq*4+lt*2+gt); ++g.st.probes[42+(eq?0:lt?1:2)];
      if(res[0]!=eq||res[1]==eq||res[2]!=lt||res[3]!=gt||res[4]==gt||res[5]==lt) fail("comparison","C21","a comparison of index %d differs from the lexicographic one",I);
    }
  }
  judgeSame(s,"C21"); if(&s!=&t) judgeSame(t,"C21");
}
