// (included inside class World) operations shared by all index kinds and key-based operations

template<class K,int I> void op_insert(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>();
  if(s.cont.size()>=kn.maxn){ op_erase_it<K,I>(s,o); return; }
  u32 mode=o.a[3]%6; size_t hp=o.a[4]%(s.ord[I].size()+1);
  bool alias=(o.a[5]%8)==0&&s.cont.size()&&(mode==0||mode==3);
  EP al=alias?s.ord[I][o.a[6]%s.ord[I].size()]:nullptr;
  Content c=mkContent(o.a[2]); if(alias) c=al->c;
  Want w; wantSame(s,w);
  auto conf=conflicts(s,w,c,nullptr);
  Elem src(c); const Elem& cr=alias?*al:src;
  auto hint=itAt<K,I>(s,hp); auto ret=ix.end(); bool ok=false,knowOk=mode<3;
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{
    switch(mode){
      case 0:{ auto p=ix.insert(cr); ret=p.first; ok=p.second; }break;
      case 1:{ auto p=ix.insert(std::move(src)); ret=p.first; ok=p.second; }break;
      case 2:{ auto p=ix.emplace(c); ret=p.first; ok=p.second; }break;
      case 3: ret=ix.insert(hint,cr); break;
      case 4: ret=ix.insert(hint,std::move(src)); break;
      default: ret=ix.emplace_hint(hint,c);
    }
  });
  outcome(r,"C03");
  if(r.threw){ judgeSame(s,"C03"); return; }
  finishInsert<K,I>(s,w,c,ep<K,I>(s,ret),ok,knowOk,conf,I,mode>=3?(int)hp:-1,mode>=3);
  if(!conf.empty()&&(mode==1||mode==4)&&src.c!=c) fail("source-consumed","C02","the value of a refused insertion was moved from");
}
template<class K,int I> void finishInsert(Slot<K>& s,Want& w,const Content& c,EP ret,bool ok,bool knowOk,const std::vector<EP>& conf,int vi,int pos,bool anyEq){
  Obs<K> ob; observe(s,ob);
  if(!knowOk){ ok=ob.cont.size()>s.cont.size(); }
  logv(ok?0x61:0x60);
  if(!conf.empty()){
    if(ok) fail("veto-missed","C02","an insertion creating a duplicate key in a unique index was accepted");
    judge(s,ob,w,"C02"); checkVeto(s,ret,conf,true); adopt(s,ob); return;
  }
  if(!ok) fail("veto-wrong","C02","an insertion creating no duplicate key was refused");
  wantNew(s,w,c,vi,pos,anyEq);
  judge(s,ob,w,"C01");
  if(!ret||(s.cont.find(ret)&&s.cont.find(ret)->birth==ret->birth)||ret->c!=c) fail("insert-result","C01,C07","an insertion does not return an iterator to the new element");
  checkLoad<K>(s);
  adopt(s,ob);
}

std::vector<Content> manyContents(u32 seed,u32 n){ Rng r(seed); std::vector<Content> v; for(u32 i=0;i<n;++i) v.push_back(mkContent((u32)r.next())); return v; }

template<class K,int I> void op_insert_range(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>();
  u32 n=o.a[3]%5+1; if(s.cont.size()+n>kn.maxn+8){ op_erase_range<K,I>(s,o); return; }
  u32 mode=o.a[4]%5; if(mode==1) n=2;
  auto cs=manyContents(o.a[2],n); std::vector<Elem> src; for(auto& c:cs) src.emplace_back(c); std::vector<Src> raw; for(auto& c:cs) raw.push_back(Src{c});
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{
    if(mode==0) ix.insert(InIt{&src,0},InIt{&src,src.size()});
    else if(mode==1) ix.insert({src[0],src[1]});
    else if(mode==2) ix.insert(src.data(),src.data()+src.size());
    else if(mode==4) ix.insert(InItV{&src,0},InItV{&src,src.size()});
    else ix.insert(raw.data(),raw.data()+raw.size());
  });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob);
  if(r.threw){ judgeBasic(s,ob,{},cs,{},0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w);
  for(auto& c:cs) if(conflicts(s,w,c,nullptr).empty()) wantNew(s,w,c,I,-1,true);
  judge(s,ob,w,"C01,C02"); adopt(s,ob);
}

template<class K,int I> void op_erase_it(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); if(!n) return;
  size_t p=o.a[4]==0xFFFFFF?n-1:o.a[4]%n; EP x=s.ord[I][p]; EP nx=p+1<n?s.ord[I][p+1]:nullptr;
  auto it=itAt<K,I>(s,p); auto ret=ix.end();
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ ret=ix.erase(it); });
  outcome(r,"C03",true);
  Want w; wantSame(s,w); wantDel(s,w,x);
  Obs<K> ob; observe(s,ob); judge(s,ob,w,"C01");
  if(ep<K,I>(s,ret)!=nx) fail("erase-result",tagsI<K>(I,"C01").c_str(),"erase() does not return the following position");
  adopt(s,ob);
}
template<class K,int I> void op_erase_range(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size();
  size_t p=o.a[5]%(n+1),len=o.a[6]%4; if(o.a[6]%32==0) len=n; size_t q=std::min(n,p+len);
  auto a=itAt<K,I>(s,p),b=itAt<K,I>(s,q); auto ret=ix.end(); EP last=q<n?s.ord[I][q]:nullptr;
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ ret=ix.erase(a,b); });
  outcome(r,"C03",true);
  Want w; wantSame(s,w); for(size_t i=p;i<q;++i) wantDel(s,w,s.ord[I][i]);
  Obs<K> ob; observe(s,ob); judge(s,ob,w,"C01,C04");
  if(ep<K,I>(s,ret)!=last) fail("erase-result",tagsI<K>(I,"C01").c_str(),"range erase() does not return its end");
  adopt(s,ob);
}
// probe element: an existing element (alias) or a fresh value
template<class K,int I> EP probe(Slot<K>& s,u32 x,u32 sel,Elem& tmp){
  size_t n=s.ord[I].size();
  if(n&&(sel&3)) return s.ord[I][x%n];
  tmp.c=mkContent(x); return &tmp;
}
template<class K,int I> void op_erase_key(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); Elem tmp; EP pr=probe<K,I>(s,o.a[2],o.a[3],tmp);
  bool alias=pr!=&tmp&&(o.a[4]&1); Content pc=pr->c; if(!alias) tmp.c=pc;
  Seq vict; for(EP p:s.ord[I]) if(equiv(s.st[I],p->c,pc)) vict.push_back(p);
  auto ke=ix.key_extractor(); size_t cnt=0; const Elem& key=alias?*pr:tmp;
  auto&& kv=ke(key);
  optags(kindTag(K::kinds[I]));
  CallRes r=call([&]{ cnt=ix.erase(kv); });
  outcome(r,"C04");
  Obs<K> ob; observe(s,ob);
  if(r.threw){ judgeBasic(s,ob,std::set<EP>(vict.begin(),vict.end()),{},{},0,"C04"); adopt(s,ob); return; }
  Want w; wantSame(s,w); for(EP p:vict) wantDel(s,w,p);
  judge(s,ob,w,"C01"); adopt(s,ob);
  if(cnt!=vict.size()) fail("erase-count",kindTag(K::kinds[I]),"erase(key) returns %lu, %lu elements had that key",(unsigned long)cnt,(unsigned long)vict.size());
}
template<class K,int I> void op_replace(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); if(!n) return;
  size_t p=o.a[2]%n; EP x=s.ord[I][p]; Content old=x->c; Content c=mkContent(o.a[3]);
  for(int f=0;f<4;++f) if((o.a[4]>>f)&1) c.k[f]=old.k[f];
  bool alias=(o.a[5]%8)==0; EP al=alias?s.ord[I][o.a[6]%n]:nullptr; u32 mode=o.a[5]%2; if(alias){ mode=0; c=al->c; }
  Elem src(c); const Elem& cr=alias?*al:src;
  Want w; wantSame(s,w); auto conf=conflicts(s,w,c,x);
  auto it=itAt<K,I>(s,p); bool ok=false;
  optags((std::string(kindTag(K::kinds[I]))).c_str());
  CallRes r=call([&]{ ok=mode?ix.replace(it,std::move(src)):ix.replace(it,cr); });
  outcome(r,"C03");
  if(r.threw){ judgeSame(s,"C03"); return; }
  Obs<K> ob; observe(s,ob); logv(ok);
  if(!conf.empty()){
    if(ok) fail("veto-missed","C02","a replacement creating a duplicate key in a unique index was accepted");
    judge(s,ob,w,"C02"); ++g.st.ops_vetoed; if(mode&&src.c!=c) fail("source-consumed","C02","the value of a refused replacement was moved from");
    adopt(s,ob); return;
  }
  if(!ok) fail("veto-wrong","C02","a replacement creating no duplicate key was refused");
  wantUpdate(s,w,x,c); judge(s,ob,w,"C01,C07");
  { Disarm d; if(&*it!=x) fail("iterator","C07","iterator to the replaced element no longer refers to it"); }
  adopt(s,ob);
}

struct BackTrack{ bool done=false; u32 firedAt=0; };
struct BackFn{ Content to; BackTrack* t; void operator()(Elem& e)const{ point(F_BACK); e.chk("restored"); e.c=to; t->done=true; t->firedAt=g.fired; } };
struct BackKFn{ int to; BackTrack* t; void operator()(int& k)const{ point(F_BACK); k=to; t->done=true; t->firedAt=g.fired; } };

template<class K,int I,class F> void finishModify(Slot<K>& s,EP x,const Content& old,const Content& to,const Content& backTo,bool rb,F callf){
  Want w; wantSame(s,w); auto conf=conflicts(s,w,to,x);
  bool mdone=false,ok=false; BackTrack bt;
  optags((std::string("C05,")+kindTag(K::kinds[I])).c_str());
  CallRes r=call([&]{ ok=callf(mdone,bt); });
  outcome(r,"C05");
  Obs<K> ob; observe(s,ob); logv(ok);
  bool bad=backTo!=old; int verdict; // 0 erased 1 same 2 updated 3 kept-or-erased
  if(r.threw){
    if(!mdone||!rb||!bt.done||g.fired>bt.firedAt) verdict=0;
    else verdict=bad?3:1;
  }
  else if(ok){
    if(!conf.empty()) fail("veto-missed","C02","a modification creating a duplicate key in a unique index was accepted");
    if(bt.done) fail("rollback-called","C05","the rollback was called although the modification succeeded");
    verdict=2;
  }
  else{
    ++g.st.ops_vetoed;
    if(conf.empty()) fail("veto-wrong","C02","a modification creating no duplicate key was refused");
    if(!rb) verdict=0;
    else{ if(!bt.done) fail("rollback-missing","C05","a refused modification did not call the rollback"); verdict=bad?3:1; }
  }
  if(verdict==3){
    const Ent* e=ob.cont.find(x); 
    if(e&&e->birth==s.cont.find(x)->birth){ Ent q=*w.cont.find(x); q.c=backTo; w.cont.del(x); w.cont.add(q); }
    else wantDel(s,w,x);
  }
  else if(verdict==0) wantDel(s,w,x);
  else if(verdict==2) wantUpdate(s,w,x,to);
  judge(s,ob,w,r.threw?"C05":"C05,C01"); adopt(s,ob);
}
template<class K,int I> void op_modify(Slot<K>& s,const Op& o,bool rb){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); if(!n) return;
  size_t p=o.a[2]%n; EP x=s.ord[I][p]; Content old=x->c,to=old,v=mkContent(o.a[3]);
  u32 fm=o.a[4]&15; if(!fm) fm=1u<<(o.a[5]&3);
  for(int f=0;f<4;++f) if((fm>>f)&1) to.k[f]=v.k[f];
  // sometimes take another element's keys to provoke collisions
  if((o.a[6]&3)==0){ EP y=s.ord[I][(o.a[6]>>2)%n]; for(int f=0;f<4;++f) if((fm>>f)&1) to.k[f]=y->c.k[f]; }
  to.id=v.id;
  bool bad=rb&&(o.a[5]>>4)%6==0; Content bk=old; if(bad){ Content z=mkContent(o.a[7]); for(int f=0;f<4;++f) if((fm>>f)&1) bk.k[f]=z.k[f]; bk.id=z.id; }
  auto it=itAt<K,I>(s,p);
  finishModify<K,I>(s,x,old,to,bk,rb,[&](bool& md,BackTrack& bt){ return rb?ix.modify(it,ModF{to,&md},BackFn{bk,&bt}):ix.modify(it,ModF{to,&md}); });
}
template<class K,int I> void op_modkey(Slot<K>& s,const Op& o,bool rb){
  if constexpr(K::ncs[I]==1){
    auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); if(!n) return;
    size_t p=o.a[2]%n; EP x=s.ord[I][p]; int f=s.st[I].c[0].f; Content old=x->c,to=old;
    to.k[f]=(int)(o.a[3]%kn.dom[f]); if((o.a[6]&3)==0) to.k[f]=s.ord[I][(o.a[6]>>2)%n]->c.k[f];
    bool bad=rb&&(o.a[5]>>4)%6==0; Content bk=old; if(bad) bk.k[f]=(int)(o.a[7]%kn.dom[f]);
    auto it=itAt<K,I>(s,p);
    finishModify<K,I>(s,x,old,to,bk,rb,[&](bool& md,BackTrack& bt){ return rb?ix.modify_key(it,ModKeyF{to.k[f],&md},BackKFn{bk.k[f],&bt}):ix.modify_key(it,ModKeyF{to.k[f],&md}); });
  }
  else op_modify<K,I>(s,o,rb);
}

//------------------------------------------------------------ lookups
struct LowB{ const Cmp c; int v; bool ex; bool operator()(int k)const{ point(F_PRED); Disarm d; return ex?c.lt(v,k):!c.lt(k,v); } };
struct UpB{ const Cmp c; int v; bool ex; bool operator()(int k)const{ point(F_PRED); Disarm d; return ex?c.lt(k,v):!c.lt(v,k); } };
template<class K,int I,class It> size_t posOf(Slot<K>& s,const It& it){
  EP p=ep<K,I>(s,it); if(!p) return s.ord[I].size();
  for(size_t i=0;i<s.ord[I].size();++i) if(s.ord[I][i]==p) return i;
  fail("lookup",tagsI<K>(I,"C01").c_str(),"a lookup returned an iterator to a foreign element");
}
template<class K,int I> void op_lookup(Slot<K>& s,const Op& o){
  const auto& ix=s.c->template get<I>(); const Seq& v=s.ord[I]; size_t n=v.size(); const IdxState& st=s.st[I];
  const char* tg=kindTag(K::kinds[I]); optags(tg);
  int pv[3]={(int)(o.a[2]%(kn.dom[st.c[0].f]+3))-1,0,0}; 
  if(st.c.size()>1) pv[1]=(int)((o.a[2]>>8)%(kn.dom[st.c[1].f]+3))-1;
  if(st.c.size()>2) pv[2]=(int)((o.a[2]>>16)%(kn.dom[st.c[2].f]+3))-1;
  if(n&&(o.a[4]&1)) { EP e=v[o.a[5]%n]; for(size_t k=0;k<st.c.size();++k) pv[k]=e->c.k[st.c[k].f]; }
  u32 form=o.a[3]; CallRes r;
  if constexpr(isOrd(K::kinds[I])){
    size_t lo=0,hi=0;
    auto b0=[&](int np){ lo=0; while(lo<n&&cmpProbe(st,v[lo]->c,pv,np)<0) ++lo; hi=lo; while(hi<n&&cmpProbe(st,v[hi]->c,pv,np)==0) ++hi; };
    size_t fnd=0,cnt=0,l=0,u=0,e1=0,e2=0; bool con=false; bool ranked=false; size_t rk[8]={0};
    auto E=ix.end();
    auto doit=[&](auto key,auto... cmp){
      auto itf=E,itl=E,itu=E; auto er=std::make_pair(E,E); u32 c0=0;
      r=call([&]{
        itf=ix.find(key,cmp...); c0=g.cmps; cnt=ix.count(key,cmp...); con=ix.contains(key,cmp...); itl=ix.lower_bound(key,cmp...); itu=ix.upper_bound(key,cmp...); er=ix.equal_range(key,cmp...);
        if constexpr(K::kinds[I]==K_RNK){ ranked=true; rk[0]=ix.find_rank(key,cmp...); rk[1]=ix.lower_bound_rank(key,cmp...); rk[2]=ix.upper_bound_rank(key,cmp...); auto q=ix.equal_range_rank(key,cmp...); rk[3]=q.first; rk[4]=q.second; }
      });
      outcome(r,"C03"); if(r.threw) return;
      double lim=(2*std::log2((double)n+1)+4)*K::ncs[I]*2; if(K::ncs[I]==1) lim=2*std::log2((double)n+1)+4;
      if(c0>lim) fail("complexity",tg,"find() in %lu elements took %u comparisons",(unsigned long)n,c0);
      fnd=posOf<K,I>(s,itf); l=posOf<K,I>(s,itl); u=posOf<K,I>(s,itu); e1=posOf<K,I>(s,er.first); e2=posOf<K,I>(s,er.second);
    };
    int np=K::ncs[I];
    if constexpr(K::ncs[I]==1){
      Cmp cm(st.c[0].dir,st.c[0].div);
      switch(form%5){
        case 0: b0(1); doit(pv[0]); break;
        case 4: b0(1); doit(AsInt{pv[0]}); break;
        case 1: b0(1); doit(CKey{pv[0]}); break;
        case 2: b0(1); doit(CKey{pv[0]},cm); break;
        default:{
          int dv=st.c[0].div*2; int q=norm(pv[0],dv);
          lo=0; auto lt=[&](EP e){ int a=norm(e->c.k[st.c[0].f],dv); return st.c[0].dir>0?a<q:q<a; }; auto eq=[&](EP e){ return norm(e->c.k[st.c[0].f],dv)==q; };
          while(lo<n&&lt(v[lo])) ++lo; hi=lo; while(hi<n&&eq(v[hi])) ++hi;
          doit(Coarse{q},CmpCoarse{st.c[0].dir,st.c[0].div});
        }
      }
    }
    else{
      (void)np; CKey k0{pv[0]},k1{pv[1]};
      switch(form%8){
        case 0: b0(1); doit(boost::make_tuple(pv[0])); break;
        case 1: b0(2); doit(boost::make_tuple(pv[0],pv[1])); break;
        case 2: b0(1); doit(pv[0]); break;
        case 3: b0(1); doit(std::make_tuple(pv[0])); break;
        case 4: b0(2); doit(std::make_tuple(k0,pv[1])); break;
        case 5: b0(2); doit(boost::make_tuple(pv[0],k1),ix.key_comp()); break;
        case 6: b0(1); doit(k0); break;
        default: if constexpr(K::ncs[I]>2){ b0(3); if(o.a[4]&2) doit(std::make_tuple(pv[0],k1,pv[2])); else doit(boost::make_tuple(k0,pv[1],pv[2])); } else { b0(2); doit(std::make_tuple(k0,k1)); }
      }
    }
    if(!r.threw){
      logv(lo); logv(hi);
      if(l!=lo||u!=hi||e1!=lo||e2!=hi||cnt!=hi-lo||con!=(hi>lo)||(hi>lo?(fnd<lo||fnd>=hi):fnd!=n))
        fail("lookup",tg,"lookup in ordered index %d disagrees with a linear scan (n=%lu scan [%lu,%lu) find=%lu count=%lu lower=%lu upper=%lu range=[%lu,%lu))",I,(unsigned long)n,(unsigned long)lo,(unsigned long)hi,(unsigned long)fnd,(unsigned long)cnt,(unsigned long)l,(unsigned long)u,(unsigned long)e1,(unsigned long)e2);
      if(ranked&&((hi>lo?(rk[0]<lo||rk[0]>=hi):rk[0]!=n)||rk[1]!=lo||rk[2]!=hi||rk[3]!=lo||rk[4]!=hi)) fail("rank-lookup","C09","a rank lookup disagrees with a linear scan");
    }
    // range with bounders
    if constexpr(K::ncs[I]==1){
      Cmp cm(st.c[0].dir,st.c[0].div);
      int a=pv[0],b=(int)(o.a[6]%(kn.dom[st.c[0].f]+2)); bool sw; { Disarm d; sw=cm.lt(b,a); } 
      u32 kind=o.a[7]%4; auto er=std::make_pair(E,E); size_t r1=0,r2=0; bool rkd=false;
      if(sw&&(o.a[7]&16)) std::swap(a,b),sw=false;
      bool xa=(o.a[7]>>5)&1,xb=(o.a[7]>>6)&1;                // exclusive bounds
      CallRes q=call([&]{
        auto go=[&](auto x,auto y){ er=ix.range(x,y); if constexpr(K::kinds[I]==K_RNK){ auto z=ix.range_rank(x,y); r1=z.first; r2=z.second; rkd=true; } };
        switch(kind){ case 0: go(LowB{cm,a,xa},UpB{cm,b,xb}); break; case 1: go(LowB{cm,a,xa},bmi::unbounded); break; case 2: go(bmi::unbounded,UpB{cm,b,xb}); break; default: go(bmi::unbounded,bmi::unbounded); }
      });
      outcome(q,"C03");
      if(!q.threw){
        size_t x=0,y=n; int pa[1]={a},pb[1]={b};
        if(kind<2) while(x<n&&cmpProbe(st,v[x]->c,pa,1)<(xa?1:0)) ++x;
        if(kind==0||kind==2){ y=0; while(y<n&&cmpProbe(st,v[y]->c,pb,1)<(xb?0:1)) ++y; }
        size_t g1=posOf<K,I>(s,er.first),g2=posOf<K,I>(s,er.second);
        if(kind==0&&y<=x){ if(g1!=g2) fail("lookup",tg,"range() of an empty interval is not empty"); if(rkd&&r1!=r2) fail("rank-lookup","C09","range_rank() of an empty interval is not empty"); }
        else{ if(g1!=x||g2!=y) fail("lookup",tg,"range() disagrees with a linear scan"); if(rkd&&(r1!=x||r2!=y)) fail("rank-lookup","C09","range_rank() disagrees with a linear scan"); }
      }
    }
  }
  else if constexpr(K::kinds[I]==K_HASH){
    size_t exp=0; for(EP p:v) if(cmpProbe(st,p->c,pv,K::ncs[I])==0) ++exp;
    auto E=ix.end();
    auto doit=[&](auto key,auto... f){
      auto itf=E; auto er=std::make_pair(E,E); size_t cnt=0; bool con=false;
      r=call([&]{ itf=ix.find(key,f...); cnt=ix.count(key,f...); con=ix.contains(key,f...); er=ix.equal_range(key,f...); });
      outcome(r,"C03"); if(r.threw) return;
      EP pf=ep<K,I>(s,itf); size_t k=0; bool allEq=true;
      { Disarm d; for(auto it=er.first;it!=er.second;++it){ if(++k>n) break; if(cmpProbe(st,(&*it)->c,pv,K::ncs[I])!=0) allEq=false; } }
      if(cnt!=exp||con!=(exp>0)||k!=exp||!allEq||(exp?(!pf||cmpProbe(st,pf->c,pv,K::ncs[I])!=0):pf!=nullptr))
        fail("lookup",tg,"lookup in hashed index %d disagrees with a linear scan (%lu equivalents, count()=%lu, equal_range=%lu)",I,(unsigned long)exp,(unsigned long)cnt,(unsigned long)k);
      if(er.first==er.second&&exp==0&&!(er.first==E)) fail("lookup",tg,"equal_range() of an absent key is not (end,end)");
    };
    if constexpr(K::ncs[I]==1){
      switch(form%4){ case 0: doit(pv[0]); break; case 1: doit(CKey{pv[0]}); break; case 3: doit(AsInt{pv[0]}); break; default: doit(CKey{pv[0]},Hash(st.hmode,st.c[0].div),Eq(st.c[0].div)); }
    }
    else if constexpr(K::ncs[I]==2){ switch(form%3){ case 0: doit(std::make_tuple(pv[0],pv[1])); break; case 1: doit(boost::make_tuple(pv[0],pv[1])); break; default: doit(std::make_tuple(CKey{pv[0]},pv[1]),ix.hash_function(),ix.key_eq()); } }
    else{ switch(form%3){ case 0: doit(std::make_tuple(pv[0],pv[1],pv[2])); break; case 1: doit(boost::make_tuple(pv[0],CKey{pv[1]},pv[2])); break; default: doit(boost::make_tuple(pv[0],pv[1],pv[2]),ix.hash_function(),ix.key_eq()); } }
  }
  if((o.a[7]&7)==0||r.threw) judgeSame(s,"C03");
}

//------------------------------------------------------------ node handles
void hClear(HSlot& h){ { Arm a; if(opno&1) h.h=NH_t(); else{ NH_t t(std::move(h.h)); } } h.full=false; h.p=nullptr; }
void hSet(HSlot& h,NH_t& t,EP p,const Content& c,u64 birth,u32 al){
  if(!h.h.empty()) hClear(h);
  { Arm a; h.h=std::move(t); }
  h.full=true; h.p=p; h.c=c; h.birth=birth; h.alloc=al; hCheck(h);
}
void hCheck(HSlot& h){
  if(h.h.empty()==h.full||(bool)h.h!=h.full) fail("handle","C13","a node handle is %s, expected otherwise",h.h.empty()?"empty":"not empty");
  if(h.full){
    if(&h.h.value()!=h.p) fail("handle","C13,C07","a node handle refers to another object");
    if(h.p->chk("owned by a node handle").birth!=h.birth||h.p->c!=h.c) fail("handle","C13,C07","the element owned by a node handle was altered or replaced");
    if(h.h.get_allocator().id!=h.alloc) fail("handle","C13,C06","a node handle has another allocator");
  }
}
template<class K,int I> void op_extract_it(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); size_t n=s.ord[I].size(); if(!n) return;
  size_t p=o.a[2]%n; EP x=s.ord[I][p]; Content c=x->c; u64 b=x->birth; auto it=itAt<K,I>(s,p);
  optags((std::string("C13,")+kindTag(K::kinds[I])).c_str());
  HSlot& h=nh[o.a[3]%NH]; NH_t t;
  CallRes r=call([&]{ t=ix.extract(it); });
  outcome(r,"C03",true);
  if(t.empty()) fail("handle","C13","extract() of an element returned an empty handle");
  Want w; wantSame(s,w); wantDel(s,w,x); Obs<K> ob; observe(s,ob); judge(s,ob,w,"C13,C01"); adopt(s,ob);
  hSet(h,t,x,c,b,s.alloc);
}
template<class K,int I> void op_extract_key(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); Elem tmp; EP pr=probe<K,I>(s,o.a[2],o.a[4],tmp); Content pc=pr->c; tmp.c=pc;
  EP first=nullptr; for(EP p:s.ord[I]) if(equiv(s.st[I],p->c,pc)){ first=p; break; }
  auto ke=ix.key_extractor(); auto&& kv=ke(tmp);
  optags((std::string("C13,")+kindTag(K::kinds[I])).c_str());
  HSlot& h=nh[o.a[3]%NH]; NH_t t;
  CallRes r=call([&]{ t=ix.extract(kv); });
  outcome(r,"C03");
  if(r.threw){ if(!t.empty()) fail("handle","C13,C03","a failed extraction produced a node"); judgeSame(s,"C03,C13"); return; }
  if(!first){ if(!t.empty()) fail("handle","C13","extract() of an absent key returned a node"); judgeSame(s,"C13"); return; }
  if(t.empty()) fail("handle","C13","extract() of a present key returned an empty handle");
  EP x=&t.value(); if(!s.cont.find(x)||!equiv(s.st[I],s.cont.find(x)->c,pc)) fail("handle","C13","extract(key) returned an element with another key");
  if(x!=first&&K::kinds[I]!=K_HASH) fail("handle","C13,C08","extract(key) did not return the first element with that key");
  Content c=x->c; u64 b=x->birth;
  Want w; wantSame(s,w); wantDel(s,w,x); Obs<K> ob; observe(s,ob); judge(s,ob,w,"C13,C01"); adopt(s,ob);
  hSet(h,t,x,c,b,s.alloc);
}
template<class K,int I> void op_insert_handle(Slot<K>& s,const Op& o){
  auto& ix=s.c->template get<I>(); HSlot& h=nh[o.a[2]%NH]; size_t n=s.ord[I].size();
  if(h.full&&h.alloc!=s.alloc){ badHandleAlloc<K,I>(s,h,o); return; }
  if(s.cont.size()>=kn.maxn+8) return;
  size_t pos=o.a[4]%(n+1); bool hinted=isKey(K::kinds[I])&&(o.a[3]&1);
  auto hint=itAt<K,I>(s,pos); auto ret=ix.end(); bool ok=false; bool viaRet=false; NH_t back;
  Want w; wantSame(s,w); std::vector<EP> conf; if(h.full) conf=conflicts(s,w,h.c,nullptr);
  optags((std::string("C13,")+kindTag(K::kinds[I])).c_str());
  CallRes r=call([&]{
    if constexpr(isPos(K::kinds[I])){ auto p=ix.insert(hint,std::move(h.h)); if(o.a[5]&1){ NH_t e; auto q=ix.insert(hint,std::move(e)); q=std::move(p); p=std::move(q); } ret=p.position; ok=p.inserted; back=std::move(p.node); viaRet=true; }
    else if(hinted) ret=ix.insert(hint,std::move(h.h));
    else{ auto p=ix.insert(std::move(h.h)); if(o.a[5]&1){ NH_t e; auto q=ix.insert(std::move(e)); q=std::move(p); p=std::move(q); } ret=p.position; ok=p.inserted; back=std::move(p.node); viaRet=true; }
  });
  outcome(r,"C03");
  if(r.threw){ hCheck(h); judgeSame(s,"C03,C13"); return; }
  Obs<K> ob; observe(s,ob); EP rp=ep<K,I>(s,ret);
  if(!h.full){
    judge(s,ob,w,"C13"); adopt(s,ob);
    if(rp||ok||!back.empty()||!h.h.empty()) fail("handle","C13","inserting an empty handle had an effect or reported one");
    return;
  }
  if(!viaRet) ok=ob.cont.size()>s.cont.size();
  logv(ok);
  if(!conf.empty()){
    if(ok) fail("veto-missed","C02,C13","a node creating a duplicate key in a unique index was accepted");
    if(viaRet){ if(!h.h.empty()) fail("handle","C13","a refused node was left in the argument as well as returned"); if(back.empty()) fail("handle","C13","a refused node was not returned"); { Arm a; h.h=std::move(back); } }
    hCheck(h); judge(s,ob,w,"C02,C13"); checkVeto(s,rp,conf,true); adopt(s,ob); return;
  }
  if(!ok) fail("veto-wrong","C02,C13","a node creating no duplicate key was refused");
  if(!h.h.empty()||!back.empty()) fail("handle","C13","a handle still owns a node that was inserted");
  wantAdd(s,w,h.p,h.c,h.birth,I,isPos(K::kinds[I])?(int)pos:(hinted?(int)pos:-1),hinted);
  judge(s,ob,w,"C13,C01");
  if(rp!=h.p) fail("handle","C13","node insertion returned an iterator to another element");
  adopt(s,ob); h.full=false; h.p=nullptr;
}
template<class K,int I> void badHandleAlloc(Slot<K>&,HSlot&,const Op&){}
void op_handle_misc(const Op& o){
  HSlot &h=nh[o.a[2]%NH],&k=nh[o.a[3]%NH]; optags("C13");
  switch(o.a[4]%5){
    case 0: if(h.full){ Content c=mkContent(o.a[5]); h.h.value().c=c; h.c=c; } break;        // edit the owned element
    case 1: hClear(h); break;
    case 2: { // move construct, then move assign into k
      if(&h==&k) return;
      if(k.full&&h.full&&k.alloc!=h.alloc&&!(POL&POL_CMA)) return;
      CallRes r=call([&]{ NH_t t(std::move(h.h)); k.h=std::move(t); }); outcome(r,"C03",true);
      k.full=h.full; k.p=h.p; k.c=h.c; k.birth=h.birth; k.alloc=h.alloc; h.full=false; h.p=nullptr; hCheck(h); hCheck(k); } break;
    case 3: { // swap
      if(h.full&&k.full&&h.alloc!=k.alloc&&!(POL&POL_SWAP)) return;
      CallRes r=call([&]{ if(o.a[5]&1) h.h.swap(k.h); else swap(h.h,k.h); }); outcome(r,"C03",true);
      std::swap(h.full,k.full); std::swap(h.p,k.p); std::swap(h.c,k.c); std::swap(h.birth,k.birth); std::swap(h.alloc,k.alloc); hCheck(h); hCheck(k); } break;
    default: { // direct move assignment
      if(&h==&k) return;
      if(k.full&&h.full&&k.alloc!=h.alloc&&!(POL&POL_CMA)) return;
      CallRes r=call([&]{ k.h=std::move(h.h); }); outcome(r,"C03",true);
      k.full=h.full; k.p=h.p; k.c=h.c; k.birth=h.birth; k.alloc=h.alloc; h.full=false; h.p=nullptr; hCheck(h); hCheck(k); }
  }
}

//------------------------------------------------------------ merge (key-based destination)
template<class K,int I,class L,int J> void op_merge(Slot<K>& s,Slot<L>& t,const Op& o,int what){
  auto& dx=s.c->template get<I>(); auto& sx=t.c->template get<J>();
  bool same=(void*)&s==(void*)&t; 
  if(s.alloc!=t.alloc){ return; }
  size_t n=t.ord[J].size(); 
  optags((std::string("C13,")+kindTag(K::kinds[I])).c_str());
  if(what==0){
    if(!n) return; size_t p=o.a[4]%n; EP x=t.ord[J][p]; Ent e=*t.cont.find(x); auto it=itAt<L,J>(t,p); auto ret=dx.end(); bool ok=false;
    Want w; wantSame(s,w); Want v; wantSame(t,v); auto conf=same?std::vector<EP>():conflicts(s,w,e.c,nullptr);
    CallRes r=call([&]{ auto q=(o.a[6]&1)?dx.merge(std::move(sx),it):dx.merge(sx,it); ret=q.first; ok=q.second; });
    outcome(r,"C03",same);
    if(r.threw){ judgeSame(s,"C03,C13"); if(!same) judgeSame(t,"C03,C13"); return; }
    EP rp=ep<K,I>(s,ret); logv(ok);
    if(same){ judgeSame(s,"C13"); if(!ok||rp!=x) fail("merge-result","C13","merging an element into its own container reports something else"); return; }
    Obs<K> a; observe(s,a); Obs<L> b; observe(t,b);
    if(!conf.empty()){ if(ok) fail("veto-missed","C02,C13","a merge creating a duplicate key was accepted"); judge(s,a,w,"C02,C13"); judge(t,b,v,"C02,C13"); checkVeto(s,rp,conf,true); }
    else{ if(!ok) fail("veto-wrong","C02,C13","a merge creating no duplicate key was refused"); wantAdd(s,w,x,e.c,e.birth,-1,-1,false); wantDel(t,v,x); judge(s,a,w,"C13,C01"); judge(t,b,v,"C13,C01"); if(rp!=x) fail("merge-result","C13","merge does not return an iterator to the transferred element"); }
    adopt(s,a); adopt(t,b); return;
  }
  size_t p=0,q=n; if(what==1){ p=o.a[4]%(n+1); q=std::min(n,p+o.a[5]%5); }
  auto a1=itAt<L,J>(t,p),a2=itAt<L,J>(t,q);
  Seq rng(t.ord[J].begin()+p,t.ord[J].begin()+q);
  CallRes r=call([&]{ if(what==1&&(o.a[6]&1)) dx.merge(std::move(sx),a1,a2); else if(what==1) dx.merge(sx,a1,a2); else if(o.a[6]&1) dx.merge(std::move(sx)); else dx.merge(sx); });
  outcome(r,"C04",same);
  finishTransferRange(s,t,rng,r,same,-1,0,"C13",false);
}
// common to merge and splice of ranges; pos<0: key-based destination
template<class K,class L> void finishTransferRange(Slot<K>& s,Slot<L>& t,const Seq& rng,const CallRes& r,bool same,int I,int pos,const char* tags,bool copies){
  if(same){
    if(I<0){ judgeSame(s,tags); return; }
  }
  Obs<K> a; observe(s,a); Obs<L> b; if(!same) observe(t,b);
  if(r.threw){
    std::string tg=std::string("C04,")+tags; std::set<EP> may(rng.begin(),rng.end());
    // conservation: every object in exactly one place
    if(!copies){
      for(auto& e:s.cont.v) if(!a.cont.find(e.p)) fail("element-lost",tg.c_str(),"a transfer cut short lost an element of the destination");
      for(auto& e:t.cont.v){ bool i=a.cont.find(e.p),j=b.cont.find(e.p); if(i==j) fail(i?"element-duplicated":"element-lost",tg.c_str(),"a transfer cut short left an element in %s container",i?"both":"neither"); if(i&&!may.count(e.p)) fail("element-moved",tg.c_str(),"a transfer cut short moved an element outside its range"); }
      judgeBasic(s,a,{},{},may,0,tg.c_str()); judgeBasic(t,b,may,{},{},0,tg.c_str());
    }
    else{
      std::vector<Content> news; for(EP p:rng) news.push_back(t.cont.find(p)->c);
      std::vector<Content> all; for(EP p:rng) all.push_back(t.cont.find(p)->c);
      judgeBasic(s,a,{},all,{},0,tg.c_str()); judgeBasic(t,b,may,{},{},0,tg.c_str());
      // conservation of values: each lost source element has a copy
      size_t lost=t.cont.size()-b.cont.size(),got=a.cont.size()-s.cont.size();
      if(lost>got) fail("element-lost",tg.c_str(),"a copying splice cut short lost an element");
    }
    adopt(s,a); adopt(t,b); return;
  }
  Want w; wantSame(s,w); Want v; wantSame(t,v);
  for(EP x:rng){
    Ent e=*t.cont.find(x);
    if(!conflicts(s,w,e.c,nullptr).empty()){ ++g.st.ops_vetoed; continue; }
    if(!copies) wantAdd(s,w,x,e.c,e.birth,I,I>=0?pos:-1,false); else wantNew(s,w,e.c,I,pos,false);
    if(I>=0) ++pos;
    wantDel(t,v,x);
  }
  std::string tg=std::string("C01,C02,")+tags;
  judge(s,a,w,tg.c_str()); judge(t,b,v,tg.c_str()); adopt(s,a); adopt(t,b);
}
