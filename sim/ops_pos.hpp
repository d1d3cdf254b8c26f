// (included inside class World) sequenced and random access operations, hashed policy operations

template<class K,int I> void op_pos_insert(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size();
  if(n>=kn.maxn){ op_erase_it<K,I>(s,o); return; }
  u32 mode=o.a[3]%9; size_t pos=o.a[4]%(n+1);
  if(mode==0||mode==1||mode==4) pos=0; else if(mode==2||mode==3||mode==5) pos=n;
  bool alias=(o.a[5]%8)==0&&n&&(mode==0||mode==2||mode==6);
  EP al=alias?s.ord[I][o.a[6]%n]:nullptr;
  Content c=mkContent(o.a[2]); if(alias) c=al->c;
  Want w; wantSame(s,w); auto conf=conflicts(s,w,c,nullptr);
  Elem src(c); const Elem& cr=alias?*al:src; auto at=itAt<K,I>(s,pos);
  auto ret=std::make_pair(ix.end(),false);
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{
    switch(mode){
      case 0: ret=ix.push_front(cr); break;
      case 1: ret=ix.push_front(std::move(src)); break;
      case 2: ret=ix.push_back(cr); break;
      case 3: ret=ix.push_back(std::move(src)); break;
      case 4: ret=ix.emplace_front(c); break;
      case 5: ret=ix.emplace_back(c); break;
      case 6: ret=ix.insert(at,cr); break;
      case 7: ret=ix.insert(at,std::move(src)); break;
      default: ret=ix.emplace(at,c);
    }
  });
  outcome(r,"C03");
  if(r.threw){ judgeSame(s,"C03"); return; }
  finishInsert<K,I>(s,w,c,ep<K,I>(s,ret.first),ret.second,true,conf,I,(int)pos,false);
  if(!conf.empty()&&(mode==1||mode==3||mode==7)&&src.c!=c) fail("source-consumed","C02","the value of a refused insertion was moved from");
}
template<class K,int I> void seqWant(Slot<K>& s,Want& w,const std::vector<Content>& cs,int pos){
  for(auto& c:cs) if(conflicts(s,w,c,nullptr).empty()){ wantNew(s,w,c,I,pos,false); ++pos; } else ++g.st.ops_vetoed;
}
template<class K,int I> void op_pos_insert_n(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size();
  u32 m=o.a[3]%4; if(n+m>kn.maxn+8){ op_erase_range<K,I>(s,o); return; }
  size_t pos=o.a[4]%(n+1); bool alias=(o.a[5]%4)==0&&n; EP al=alias?s.ord[I][o.a[6]%n]:nullptr;
  Content c=mkContent(o.a[2]); if(alias) c=al->c; Elem src(c); const Elem& cr=alias?*al:src;
  auto at=itAt<K,I>(s,pos);
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ ix.insert(at,(size_t)m,cr); });
  outcome(r,"C04");
  std::vector<Content> cs(m,c); Obs<K> ob; observe(s,ob);
  if(r.threw){ judgeBasic(s,ob,{},cs,{},0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w); seqWant<K,I>(s,w,cs,(int)pos); judge(s,ob,w,"C01,C02"); adopt(s,ob);
}
template<class K,int I> void op_pos_insert_range(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); u32 m=o.a[3]%5; if(n+m>kn.maxn+8){ op_erase_range<K,I>(s,o); return; }
  u32 mode=o.a[5]%6; if(mode==1) m=2; if(mode==4) m%=4;
  size_t pos=o.a[4]%(n+1); int iv=(int)(o.a[2]%kn.dom[0]); auto cs=mode==4?std::vector<Content>(m,Elem::intContent(iv)):manyContents(o.a[2],m); std::vector<Src> raw; for(auto& c:cs) raw.push_back(Src{c}); std::vector<Elem> src; src.reserve(m); for(auto& c:cs) src.emplace_back(c);
  auto at=itAt<K,I>(s,pos);
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{
    if(mode==0) ix.insert(at,InIt{&src,0},InIt{&src,src.size()});
    else if(mode==1) ix.insert(at,{src[0],src[1]});
    else if(mode==2) ix.insert(at,src.data(),src.data()+src.size());
    else if(mode==3) ix.insert(at,raw.data(),raw.data()+raw.size());
    else if(mode==5) ix.insert(at,InItV{&src,0},InItV{&src,src.size()});
    else ix.insert(at,(int)m,iv);                       // two integers are a count and a value, not iterators
  });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob);
  if(r.threw){ judgeBasic(s,ob,{},cs,{},0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w); seqWant<K,I>(s,w,cs,(int)pos); judge(s,ob,w,"C01,C02"); adopt(s,ob);
}
template<class K,int I> void op_pop(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); if(!n) return; bool fr=o.a[3]&1;
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ if(fr) ix.pop_front(); else ix.pop_back(); });
  outcome(r,"C03",true);
  Want w; wantSame(s,w); wantDel(s,w,fr?s.ord[I].front():s.ord[I].back()); Obs<K> ob; observe(s,ob); judge(s,ob,w,"C01"); adopt(s,ob);
}
template<class K,int I> void op_assign(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); u32 m=o.a[3]%7,mode=o.a[5]%6; if(mode==1) m=2;
  int iv=(int)(o.a[2]%kn.dom[0]); auto cs=manyContents(o.a[2],m); if(mode==2) for(auto& c:cs) c=cs[0]; if(mode==3) for(auto& c:cs) c=Elem::intContent(iv); std::vector<Src> raw; for(auto& c:cs) raw.push_back(Src{c});
  std::vector<Elem> src; src.reserve(m); for(auto& c:cs) src.emplace_back(c);
  optags(kindTag(K::kinds[I]));
  Elem one; if(m) one.c=cs[0];
  CallRes r=call([&]{
    if(mode==0) ix.assign(InIt{&src,0},InIt{&src,src.size()});
    else if(mode==1) ix.assign({src[0],src[1]});
    else if(mode==2) ix.assign((size_t)m,one);
    else if(mode==3) ix.assign((int)m,iv);
    else if(mode==5) ix.assign(InItV{&src,0},InItV{&src,src.size()});
    else ix.assign(raw.data(),raw.data()+raw.size());
  });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob);
  if(r.threw){ std::set<EP> all; for(auto& e:s.cont.v) all.insert(e.p); judgeBasic(s,ob,all,cs,{},0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w); for(auto& e:s.cont.v) wantDel(s,w,e.p); seqWant<K,I>(s,w,cs,0);
  // addresses may be reused by new elements: compare by value
  judgeFresh(s,ob,w,"C01,C02"); adopt(s,ob);
}
// like judge, for operations that first drop everything: old addresses may come back for new objects
template<class K> void judgeFresh(Slot<K>& s,const Obs<K>& o,Want& w,const char* tags){
  if(kn.reuse){ Slot<K> z; z.st=s.st; z.ord.assign(K::N,Seq()); judge(z,o,w,tags); } else judge(s,o,w,tags);
}
template<class K,int I> void op_resize(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); size_t m=o.a[4]%(n+5); if(m>kn.maxn+8) m=kn.maxn; bool val=o.a[3]&1;
  bool alias=val&&n&&(o.a[5]%4)==0&&m>n; EP al=alias?s.ord[I][o.a[6]%n]:nullptr;
  Content c=val?mkContent(o.a[2]):Elem::defContent(); if(alias) c=al->c; Elem src(c); const Elem& cr=alias?*al:src;
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ if(val) ix.resize(m,cr); else ix.resize(m); });
  outcome(r,"C04",m<=n);
  std::vector<Content> cs(m>n?m-n:0,c); Obs<K> ob; observe(s,ob);
  if(r.threw){ judgeBasic(s,ob,{},cs,{},0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w); if(m<n) for(size_t i=m;i<n;++i) wantDel(s,w,s.ord[I][i]); else seqWant<K,I>(s,w,cs,(int)n);
  judge(s,ob,w,"C01,C02"); adopt(s,ob);
}
// splice: destination position o.a[6], source position o.a[4], length o.a[5], flags o.a[7]
template<class K,int I,class L,int J> void op_splice(Slot<K>& s,Slot<L>& t,const Op& o,int what){
  auto& dx=s.c->template get<I>(); auto& sx=t.c->template get<J>();
  bool same=(void*)&s==(void*)&t; bool copies=!same&&s.alloc!=t.alloc;
  size_t n=s.ord[I].size(),m=t.ord[J].size(),dp=o.a[6]%(n+1),p=0,q=m; bool rv=o.a[7]&1;
  if(!same&&n>2*kn.maxn) return;
  if(what==0){ if(!m) return; p=o.a[4]%m; q=p+1; }
  else if(what==1){ p=o.a[4]%(m+1); q=std::min(m,p+o.a[5]%5); }
  if(same&&what==2) dp=n;
  Seq rng(t.ord[J].begin()+p,t.ord[J].begin()+q);
  if(same&&what==1&&dp<n){ EP d=s.ord[I][dp]; if(std::find(rng.begin(),rng.end(),d)!=rng.end()) return; }
  auto pos=itAt<K,I>(s,dp); auto a=itAt<L,J>(t,p),b=itAt<L,J>(t,q); auto ret=std::make_pair(dx.end(),false);
  std::string tg=std::string("C13,")+kindTag(K::kinds[I]); optags(tg.c_str());
  Want w; wantSame(s,w); std::vector<EP> conf; if(what==0&&!same) conf=conflicts(s,w,rng[0]->c,nullptr);
  CallRes r=call([&]{
    if(what==0){ if(rv) ret=dx.splice(pos,std::move(sx),a); else ret=dx.splice(pos,sx,a); }
    else if(what==1){ if(rv) dx.splice(pos,std::move(sx),a,b); else dx.splice(pos,sx,a,b); }
    else{ if(rv) dx.splice(pos,std::move(sx)); else dx.splice(pos,sx); }
  });
  outcome(r,what==0?"C03":"C04",same);
  if(same){
    if(what!=2){
      EP d=dp<n?s.ord[I][dp]:nullptr;
      if(!(what==0&&d==rng[0])){
        Seq& v=w.seq[I]; for(EP x:rng) v.erase(std::find(v.begin(),v.end(),x));
        auto at=d?std::find(v.begin(),v.end(),d):v.end(); v.insert(at,rng.begin(),rng.end());
      }
    }
    Obs<K> ob; observe(s,ob); judge(s,ob,w,"C13,C01"); adopt(s,ob);
    if(what==0&&(!ret.second||ep<K,I>(s,ret.first)!=rng[0])) fail("splice-result","C13","same-container splice does not report its element");
    return;
  }
  if(what==0){
    EP x=rng[0]; Ent e=*t.cont.find(x);
    if(r.threw){ judgeSame(s,"C03,C13"); judgeSame(t,"C03,C13"); return; }
    Obs<K> a1; observe(s,a1); Obs<L> b1; observe(t,b1); Want v; wantSame(t,v); EP rp=ep<K,I>(s,ret.first);
    logv(ret.second);
    if(!conf.empty()){
      if(ret.second) fail("veto-missed","C02,C13","a splice creating a duplicate key was accepted");
      judge(s,a1,w,"C02,C13"); judge(t,b1,v,"C02,C13"); checkVeto(s,rp,conf,true);
    }
    else{
      if(!ret.second) fail("veto-wrong","C02,C13","a splice creating no duplicate key was refused");
      if(copies) wantNew(s,w,e.c,I,(int)dp,false); else wantAdd(s,w,x,e.c,e.birth,I,(int)dp,false);
      wantDel(t,v,x); judge(s,a1,w,"C13,C01"); judge(t,b1,v,"C13,C01");
      if(!rp||rp->c!=e.c||(!copies&&rp!=x)) fail("splice-result","C13","splice does not return an iterator to the transferred element");
    }
    adopt(s,a1); adopt(t,b1); return;
  }
  finishTransferRange(s,t,rng,r,false,I,(int)dp,"C13",copies);
}
template<class K,int I> void op_remove(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); u32 mode=o.a[3]%3; 
  Pred pr{(int)(o.a[4]%4),(int)(o.a[5]%3)+2,0}; pr.r=(int)(o.a[6]%pr.m);
  Elem val; if(n) val.c=s.ord[I][o.a[2]%n]->c; bool alias=mode==2&&n; const Elem& vr=alias?*s.ord[I][o.a[2]%n]:val;
  std::set<EP> kill; for(EP p:s.ord[I]) if(mode==0?pr.test(p->c):elem_eq(p->c,val.c)) kill.insert(p);
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ if(mode==0) ix.remove_if(pr); else ix.remove(vr); });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob);
  if(r.threw){ judgeBasic(s,ob,kill,{},{},K::kinds[I]==K_RND?1u<<I:0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w); for(EP p:kill) wantDel(s,w,p); judge(s,ob,w,"C01"); adopt(s,ob);
}
template<class K,int I> void op_unique(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); bool dflt=o.a[3]&1; BinPred bp{(int)(o.a[4]%4),(int)(o.a[5]%3)+1,(o.a[6]&3)==3?(int)((o.a[6]>>2)%4):-1};
  std::set<EP> kill; EP last=nullptr; for(EP p:s.ord[I]){ if(last&&(dflt?elem_eq(last->c,p->c):bp.test(p->c,last->c))) kill.insert(p); else last=p; }
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ if(dflt) ix.unique(); else ix.unique(bp); });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob);
  if(r.threw){ judgeBasic(s,ob,kill,{},{},K::kinds[I]==K_RND?1u<<I:0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w); for(EP p:kill) wantDel(s,w,p); judge(s,ob,w,"C01"); adopt(s,ob);
}
template<class K,int I> void doSort(Slot<K>& s,bool dflt,const ElCmp& ec,bool rearm){
  auto& ix=s.c->template get<I>();
  if(!rearm) planUsed=true; else planUsed=false;
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ if(dflt) ix.sort(); else ix.sort(ec); });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob); Want w; wantSame(s,w);
  if(r.threw) w.mode[I]=M_FREE;
  else std::stable_sort(w.seq[I].begin(),w.seq[I].end(),[&](EP a,EP b){ return dflt?elem_less(a->c,b->c):ec.test(a->c,b->c); });
  judge(s,ob,w,r.threw?"C04":"C01"); adopt(s,ob);
}
ElCmp elcmp(const Op& o){ return ElCmp{(int)(o.a[4]%4),(o.a[5]&1)?1:-1,(int)((o.a[5]>>1)%3)+1}; }
template<class K,int I> void op_sort(Slot<K>& s,const Op& o){ doSort<K,I>(s,o.a[3]&1,elcmp(o),true); }
template<class K,int I> void op_list_merge(Slot<K>& s,Slot<K>& t,const Op& o){
  bool dflt=o.a[3]&1; ElCmp ec=elcmp(o); bool same=&s==&t; bool copies=!same&&s.alloc!=t.alloc;
  if(!same&&s.cont.size()>2*kn.maxn) return;
  auto less=[&](EP a,EP b){ return dflt?elem_less(a->c,b->c):ec.test(a->c,b->c); };
  if(!std::is_sorted(s.ord[I].begin(),s.ord[I].end(),less)) doSort<K,I>(s,dflt,ec,false);
  if(!same&&!std::is_sorted(t.ord[I].begin(),t.ord[I].end(),less)) doSort<K,I>(t,dflt,ec,false);
  planUsed=false;
  std::string tg=std::string("C13,")+kindTag(K::kinds[I]); optags(tg.c_str());
  auto& dx=s.c->template get<I>(); auto& sx=t.c->template get<I>();
  Seq rng=t.ord[I];
  CallRes r=call([&]{ if(dflt) dx.merge(sx); else dx.merge(sx,ec); });
  outcome(r,"C04",same);
  if(same){ judgeSame(s,"C04"); return; }
  if(r.threw){ finishTransferRange(s,t,rng,r,false,I,(int)s.ord[I].size(),"C04",copies); return; }
  Obs<K> a; observe(s,a); Obs<K> b; observe(t,b); Want w; wantSame(s,w); Want v; wantSame(t,v);
  Seq acc;
  for(EP x:rng){
    Ent e=*t.cont.find(x); if(!conflicts(s,w,e.c,nullptr).empty()){ ++g.st.ops_vetoed; continue; }
    if(copies) acc.push_back(wantNew(s,w,e.c,-1,-1,false)); else{ wantAdd(s,w,x,e.c,e.birth,-1,-1,false); acc.push_back(x); }
    wantDel(t,v,x);
  }
  Seq out; std::merge(s.ord[I].begin(),s.ord[I].end(),acc.begin(),acc.end(),std::back_inserter(out),[&](EP x,EP y){ const Content &cx=cOf(w,x),&cy=cOf(w,y); return dflt?elem_less(cx,cy):ec.test(cx,cy); });
  w.seq[I]=out;
  judge(s,a,w,"C01,C02,C04"); judge(t,b,v,"C01,C02,C04"); adopt(s,a); adopt(t,b);
}
template<class K,int I> void op_reverse(Slot<K>& s,const Op&){
  auto& ix=s.c->template get<I>(); optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ ix.reverse(); }); outcome(r,"C03",true);
  Want w; wantSame(s,w); std::reverse(w.seq[I].begin(),w.seq[I].end()); Obs<K> ob; observe(s,ob); judge(s,ob,w,"C01"); adopt(s,ob);
}
template<class K,int I> void op_reloc(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); if(!n) return; size_t d=o.a[3]%(n+1),p=o.a[4]%n; EP x=s.ord[I][p];
  auto at=itAt<K,I>(s,d),it=itAt<K,I>(s,p); optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ ix.relocate(at,it); }); outcome(r,"C03",true);
  Want w; wantSame(s,w); Seq& v=w.seq[I]; if(d!=p){ EP de=d<n?v[d]:nullptr; v.erase(v.begin()+p); v.insert(de?std::find(v.begin(),v.end(),de):v.end(),x); }
  Obs<K> ob; observe(s,ob); judge(s,ob,w,"C01"); adopt(s,ob);
}
template<class K,int I> void op_reloc_range(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); size_t p=o.a[4]%(n+1),q=std::min(n,p+o.a[5]%5),d=o.a[3]%(n+1);
  if(d>=p&&d<q) d=(o.a[6]&1)?q:(p?p-1:q);
  auto at=itAt<K,I>(s,d),a=itAt<K,I>(s,p),b=itAt<K,I>(s,q); optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ ix.relocate(at,a,b); }); outcome(r,"C03",true);
  Want w; wantSame(s,w); Seq& v=w.seq[I]; EP de=d<n?v[d]:nullptr; Seq mv(v.begin()+p,v.begin()+q); v.erase(v.begin()+p,v.begin()+q); v.insert(de?std::find(v.begin(),v.end(),de):v.end(),mv.begin(),mv.end());
  Obs<K> ob; observe(s,ob); judge(s,ob,w,"C01"); adopt(s,ob);
}
template<class K,int I> void op_rearrange(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); constexpr int J=(I+1)%K::N; bool other=J!=I&&(o.a[3]&1);
  Seq perm=s.ord[I]; Rng rr(o.a[4]); for(size_t i=n;i>1;--i) std::swap(perm[i-1],perm[rr.below((u32)i)]);
  if(other) perm=s.ord[J];
  optags(kindTag(K::kinds[I]));
  auto& jx=s.c->template get<J>();
  CallRes r=call([&]{ if(other) ix.rearrange(jx.begin()); else ix.rearrange(ViewIt<Elem>{&perm,0}); });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob); Want w; wantSame(s,w); if(r.threw) w.mode[I]=M_FREE; else w.seq[I]=perm;
  judge(s,ob,w,r.threw?"C04":"C01"); adopt(s,ob);
}
// requests for more memory than there is: they fail, and change nothing
static size_t hugeCount(u64 a){ unsigned k=(unsigned)(a>>8)%12; return k<6?~size_t(0)-k:~size_t(0)>>((a>>16)%17); }
void outcomeHuge(const CallRes& r,const char* tags){
  g_faulttags=tags;
  if(r.safe) fail("safe-mode-false-alarm","C17","safe mode reported error %d for a valid use",r.code);
  if(!r.threw) fail("impossible-request",tags,"a request for more memory than there is was reported as carried out");
  if(!r.big&&!g.fired) fail("unexpected-exception",tags,"an unexpected exception was thrown (%s)",r.what.c_str());
}
template<class K,int I> void op_cap_huge(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t m=hugeCount(o.a[4]),c0=ix.capacity();
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ ix.reserve(m); });
  outcomeHuge(r,"C03,C12"); judgeSame(s,"C03,C12"); if(ix.capacity()!=c0) fail("capacity","C03,C12","a failed reserve(%lu) changes capacity()",(unsigned long)m);
}
template<class K,int I> void op_rehash_huge(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t m=hugeCount(o.a[4]),b0=ix.bucket_count(); unsigned how=o.a[2]%4;
  optags(kindTag(K::kinds[I]));
  if(how<2){ CallRes r=call([&]{ if(how) ix.reserve(m); else ix.rehash(m); }); outcomeHuge(r,"C03,C10"); }
  else if(how==2){
    CallRes r=call([&]{ typename K::C c(K::args(s.st,~u32(0)-(u32)(o.a[4]%16)),typename K::alloc(s.alloc)); logv(c.size()); });
    outcomeHuge(r,"C06,C10");                   // (whatever was allocated for the container is given back)
  }
  else{                                         // an insertion that the maximum load factor does not allow
    float f=ix.max_load_factor(); static const float z[3]={1e-8f,1e-20f,1e-36f}; auto cs=manyContents(o.a[4],1); Elem e(cs[0]);
    { Disarm d_; ix.max_load_factor(z[o.a[4]%3]); s.room[I].m=0; }
    CallRes r=call([&]{ ix.insert(e); });
    { Disarm d_; ix.max_load_factor(f); }
    g_faulttags="C03,C10";
    if(r.safe) fail("safe-mode-false-alarm","C17","safe mode reported error %d for a valid use",r.code);
    if(r.threw&&!r.big&&!g.fired) fail("unexpected-exception","C03,C10","an unexpected exception was thrown (%s)",r.what.c_str());
  }
  judgeSame(s,"C03,C10"); if(ix.bucket_count()!=b0) fail("buckets","C03,C10","a request that failed changes the number of buckets");
}
template<class K,int I> void op_cap(Slot<K>& s,const Op& o){
  if((o.a[3]>>4)%12==0) return op_cap_huge<K,I>(s,o);
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); bool shrink=o.a[3]&1; size_t m=o.a[4]%(3*kn.maxn+2); 
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ if(shrink) ix.shrink_to_fit(); else ix.reserve(m); });
  outcome(r,"C03"); judgeSame(s,r.threw?"C03":"C01");
  if(!r.threw){ auto& rm=s.room[I]; rm.c=s.c; rm.m=shrink?0:std::max(m,rm.m); }
  if(!r.threw&&!shrink&&ix.capacity()<m) fail("capacity","C12","capacity() is below what was reserved");
  if(!r.threw&&shrink&&ix.capacity()!=n) fail("capacity","C12","shrink_to_fit() does not reduce capacity() to size()");
}
template<class K,int I> void op_rehash(Slot<K>& s,const Op& o){
  if((o.a[3]>>4)%12==0) return op_rehash_huge<K,I>(s,o);
  auto& ix=s.c->template get<I>(); size_t n=s.cont.size(); size_t m=o.a[4]%200; if((o.a[4]>>10)%4==0) m=0; else if((o.a[4]>>12)%16==0) m*=kn.maxn>300?300:20; size_t b0=ix.bucket_count(); bool rs=o.a[3]&1;
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ if(rs) ix.reserve(m); else ix.rehash(m); });
  outcome(r,"C03,C10"); judgeSame(s,r.threw?"C03,C10":"C10");
  if(!r.threw){ auto& rm=s.room[I]; rm.c=s.c; rm.m=rs&&m>n?m-1:0; rm.got=ix.bucket_count(); }
  if(!r.threw){
    if(ix.bucket_count()<b0) fail("buckets","C10","%s(%lu) reduces the number of buckets",rs?"reserve":"rehash",(unsigned long)m);
    if(!rs&&ix.bucket_count()<m) fail("buckets","C10","rehash(%lu) leaves %lu buckets",(unsigned long)m,(unsigned long)ix.bucket_count());
    if(rs&&(double)ix.bucket_count()*ix.max_load_factor()+1e-3<(double)m) fail("buckets","C10","reserve(%lu) leaves room for less",(unsigned long)m);
    if(ix.load_factor()>ix.max_load_factor()*1.0001f+1e-6f) fail("load-factor","C10","load factor exceeds the maximum after a rehash");
  }
}
template<class K> void checkLoad(Slot<K>& s){
  withEachIdx<K>([&](auto I){ constexpr int i=decltype(I)::value; if constexpr(K::kinds[i]==K_HASH){ auto& ix=s.c->template get<i>();
    if(ix.load_factor()>ix.max_load_factor()*1.0001f+1e-6f) fail("load-factor","C10","load factor exceeds the maximum after an insertion or rehash"); 
    float lf=(float)ix.size()/(float)ix.bucket_count(); if(std::fabs(lf-ix.load_factor())>1e-3f*(1+lf)) fail("load-factor","C10","load_factor() is not size()/bucket_count()"); } });
}
template<class K,int I> void op_mlf(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); static const float z[6]={1.f,0.5f,0.8f,2.f,4.f,1.f}; float f=z[o.a[4]%6];
  optags(kindTag(K::kinds[I]));
  s.room[I].m=0;
  CallRes r=call([&]{ ix.max_load_factor(f); }); outcome(r,"C03,C10"); judgeSame(s,"C10");
  if(!r.threw&&ix.max_load_factor()!=f) fail("load-factor","C10","max_load_factor() does not return what was set");
}
