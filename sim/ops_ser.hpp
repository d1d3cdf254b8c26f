// (included inside class World) saving, loading, and their failures

// a simulated file being written: fails for good, or throws, once 'lim' bytes were taken
struct OutBuf:std::streambuf{
  std::string d; size_t lim; int mode;           // mode 0: short write, 1: throwing device
  bool failed=false;
  OutBuf(size_t l,int m):lim(l),mode(m){}
  std::streamsize put(const char* p,std::streamsize n){
    point(F_IO);
    size_t room=lim>d.size()?lim-d.size():0; size_t k=std::min((size_t)n,room); d.append(p,k);
    if(k<(size_t)n){ failed=true; ++g.st.fired[F_IO]; logv(0x3000); if(mode==1) throw Fault{F_IO}; }
    return (std::streamsize)k;
  }
  std::streamsize xsputn(const char* p,std::streamsize n)override{ return put(p,n); }
  int_type overflow(int_type ch)override{ if(ch==traits_type::eof()) return 0; char c=(char)ch; return put(&c,1)==1?ch:traits_type::eof(); }
  int sync()override{ return failed?-1:0; }
};
// a simulated file being read: ends, or throws, after 'lim' bytes; served in small pieces
struct InBuf:std::streambuf{
  const std::string& d; size_t lim,pos=0,chunk; int mode; bool failed=false; char buf[64];
  InBuf(const std::string& s,size_t l,size_t c,int m):d(s),lim(l),chunk(c?c:1),mode(m){}
  int_type underflow()override{
    point(F_IO);
    if(pos>=lim){ if(lim<d.size()){ if(!failed){ ++g.st.fired[F_IO]; logv(0x3001); } failed=true; if(mode==1) throw Fault{F_IO}; } return traits_type::eof(); }
    size_t k=std::min(std::min(chunk,sizeof buf),lim-pos); memcpy(buf,d.data()+pos,k); pos+=k; setg(buf,buf,buf+k); return traits_type::to_int_type(buf[0]);
  }
};
template<class K> struct SavedIts{ std::vector<size_t> pos; };
template<class Ar,class K> void putAll(Ar& ar,Slot<K>& s,const std::vector<size_t>& pos){
  const typename K::C& c=*s.c;
  ar<<boost::serialization::make_nvp("container",c);
  withEachIdx<K>([&](auto I){ constexpr int i=decltype(I)::value;
    const typename K::C::template nth_index<i>::type::const_iterator it=itAt<K,i>(s,pos[i]); ar<<boost::serialization::make_nvp("iterator",it);
    if constexpr(K::kinds[i]==K_HASH){ const auto& ix=c.template get<i>(); const typename K::C::template nth_index<i>::type::const_local_iterator lit=pos[i]<s.ord[i].size()?ix.local_iterator_to(*s.ord[i][pos[i]]):ix.end(0); ar<<boost::serialization::make_nvp("local_iterator",lit); }
  });
}
template<class K> struct LoadedIts{ EP at[K::N]; EP lat[K::N]; };
template<class Ar,class K> void getAll(Ar& ar,Slot<K>& s,LoadedIts<K>* li){
  ar>>boost::serialization::make_nvp("container",*s.c);
  withEachIdx<K>([&](auto I){ constexpr int i=decltype(I)::value;
    typename K::C::template nth_index<i>::type::iterator it=s.c->template get<i>().begin(); ar>>boost::serialization::make_nvp("iterator",it);
    if(li) li->at[i]=ep<K,i>(s,it);
    if constexpr(K::kinds[i]==K_HASH){ typename K::C::template nth_index<i>::type::local_iterator lit; ar>>boost::serialization::make_nvp("local_iterator",lit); if(li){ Disarm d; li->lat[i]=lit==s.c->template get<i>().end(0)?nullptr:&*lit; } }
  });
}
template<class K> bool saveTo(std::streambuf& b,Slot<K>& s,int fmtk,const std::vector<size_t>& pos){
  std::ostream os(&b);
  switch(fmtk%3){
    case 0:{ boost::archive::text_oarchive ar(os); putAll(ar,s,pos); if(!os) throw Fault{F_IO}; }break;
    case 1:{ boost::archive::binary_oarchive ar(os); putAll(ar,s,pos); if(!os) throw Fault{F_IO}; }break;
    default:{ boost::archive::xml_oarchive ar(os,boost::archive::no_header); putAll(ar,s,pos); if(!os) throw Fault{F_IO}; }
  }
  return true;
}
template<class K> void loadFrom(std::streambuf& b,Slot<K>& s,int fmtk,LoadedIts<K>* li){
  std::istream is(&b);
  switch(fmtk%3){
    case 0:{ boost::archive::text_iarchive ar(is); getAll(ar,s,li); }break;
    case 1:{ boost::archive::binary_iarchive ar(is); getAll(ar,s,li); }break;
    default:{ boost::archive::xml_iarchive ar(is,boost::archive::no_header); getAll(ar,s,li); }
  }
}
static int fmtOf(const Op& o){ static const int t[8]={0,1,0,1,0,1,0,2}; return t[o.a[3]%8]; }
template<class K> std::vector<size_t> itPos(Slot<K>& s,u32 x){ Rng r(x); std::vector<size_t> v; for(int i=0;i<K::N;++i) v.push_back(r.below((u32)s.ord[i].size()+1)); return v; }
template<class K> std::string fullSave(Slot<K>& s,int f,const std::vector<size_t>& pos){
  OutBuf ob((size_t)-1,0);
  CallRes r=call([&]{ saveTo(ob,s,f,pos); });
  if(r.threw) fail("unexpected-exception","C15,C16","saving to a working device failed (%s)",r.what.c_str());
  return ob.d;   // (XML archives are written without the library's header, whose end tag is read by a destructor that cannot report failure)
}
template<class K> void alignConfig(Slot<K>& s,Slot<K>& t,u32 nb){
  if(&s==&t||sameStates<K>(s.st,t.st)) return;
  dropEnds(t.sid); auto st=s.st; u32 al=t.alloc; destroy(t); t.c=new typename K::C(K::args(st,nb),typename K::alloc(al)); t.st=st; Obs<K> o; observe(t,o); adopt(t,o); checkIters();
}
template<class K> void judgeLoaded(Slot<K>& t,const Shape& sh,const std::vector<Content>& at,const std::vector<char>& isEnd,const LoadedIts<K>* li,const char* tags){
  Obs<K> o; observe(t,o); expectShape(o,sh,tags);
  if(li) for(int i=0;i<K::N;++i){
    auto okp=[&](EP p){ return isEnd[i]?p==nullptr:(p&&o.cont.find(p)&&p->c==at[i]); };
    if(!okp(li->at[i])) fail("restored-iterator",tags,"a restored iterator of index %d does not refer to the restored element",i);
    if(K::kinds[i]==K_HASH&&!okp(li->lat[i])) fail("restored-iterator",tags,"a restored local iterator of index %d does not refer to the restored element",i);
  }
  adopt(t,o);
}
template<class K> void itContents(Slot<K>& s,const std::vector<size_t>& pos,std::vector<Content>& at,std::vector<char>& isEnd){
  at.assign(K::N,Content()); isEnd.assign(K::N,0); for(int i=0;i<K::N;++i){ if(pos[i]<s.ord[i].size()) at[i]=s.ord[i][pos[i]]->c; else isEnd[i]=1; }
}
template<class K> void op_round(Slot<K>& s,Slot<K>& t,const Op& o){
  optags("C15"); int f=fmtOf(o); auto pos=itPos(s,o.a[4]);
  bool pu=planUsed; planUsed=true;                       // faults in this operation: see faulty_save / faulty_load
  alignConfig(s,t,o.a[5]%40);
  std::vector<Content> at; std::vector<char> ie; itContents(s,pos,at,ie); Shape sh=shape(s);
  std::string d=fullSave(s,f,pos); judgeSame(s,"C15");
  for(char ch:d) logv((u8)ch);
  LoadedIts<K> li; InBuf ib(d,d.size(),1+o.a[6]%64,0);
  CallRes r=call([&]{ loadFrom(ib,t,f,&li); });
  if(r.threw) fail("load-failed","C15","loading what was saved failed (%s)",r.what.c_str());
  dropEnds(t.sid);
  judgeLoaded(t,sh,at,ie,&li,"C15"); ++g.st.probes[50+f];
  // saving the restored container again must give a container restoring to the same contents
  if(&s!=&t) judgeSame(s,"C15");
  (void)pu;
}
template<class K> void op_fault_save(Slot<K>& s,const Op& o){
  optags("C16"); int f=fmtOf(o); auto pos=itPos(s,o.a[4]);
  size_t lim=(size_t)-1; bool pf=cur->fmask!=0;
  if(!pf){ planUsed=true; size_t full=fullSave(s,f,pos).size(); lim=o.a[5]%(full+1); }
  planUsed=!pf;
  OutBuf ob(lim,o.a[6]&1);
  CallRes r=call([&]{ saveTo(ob,s,f,pos); });
  if(r.safe) outcome(r,"C16");
  if(r.threw&&!g.fired&&!ob.failed) fail("unexpected-exception","C16","saving failed although the device worked (%s)",r.what.c_str());
  if(g.fired&&!r.threw&&g.firedKind!=F_IO&&g.firedKind!=F_NEW) fail("exception-swallowed","C16","an exception thrown while saving (%s) was not propagated",fk_name[g.firedKind]);
  g_faulttags="C16"; judgeSame(s,"C16"); g_faulttags="";
  ++g.st.probes[54+(r.threw?1:0)];
}
template<class K> void op_fault_load(Slot<K>& s,Slot<K>& t,const Op& o){
  optags("C16"); int f=fmtOf(o); auto pos=itPos(s,o.a[4]); bool pf=cur->fmask!=0;
  planUsed=true; if(!(o.a[6]&12)) {} else alignConfig(s,t,o.a[7]%40);
  bool foreign=!sameStates<K>(s.st,t.st);                 // the loading container orders, groups or admits elements differently
  std::vector<Content> at; std::vector<char> ie; itContents(s,pos,at,ie); Shape sh=shape(s);
  std::string d=fullSave(s,f,pos); judgeSame(s,"C16");
  size_t lim=d.size(); int mode=o.a[6]&1;
  if(!pf&&d.size()){ 
    lim=o.a[5]%d.size();
    if(mode==0&&f!=1){ while(lim>0&&!(d[lim-1]==' '||d[lim-1]=='\n'||d[lim-1]=='>'||d[lim-1]=='<')) --lim; }   // a number cut in half would read as another number
  }
  planUsed=!pf;
  InBuf ib(d,lim,1+o.a[7]%64,mode); LoadedIts<K> li; for(auto& e:li.at) e=nullptr;
  CallRes r=call([&]{ loadFrom(ib,t,f,&li); });
  dropEnds(t.sid);
  if(r.threw&&!g.fired&&!ib.failed&&!foreign) fail("unexpected-exception","C16","loading failed although the device worked (%s)",r.what.c_str());
  if(g.fired&&!r.threw&&g.firedKind!=F_IO&&g.firedKind!=F_NEW) fail("exception-swallowed","C16","an exception thrown while loading (%s) was not propagated",fk_name[g.firedKind]);
  g_faulttags="C16"; ++g.st.probes[56+(r.threw?1:0)];
  if(foreign) ++g.st.probes[60+(r.threw?1:0)];
  if(!r.threw&&foreign){
    Obs<K> ob; observe(t,ob); std::vector<Content> a=sh[0],b; for(auto& e:ob.cont.v) b.push_back(e.c); std::sort(a.begin(),a.end(),cless); std::sort(b.begin(),b.end(),cless);
    if(a!=b) fail("elements","C16,C15","a load that reports success did not restore exactly the saved elements");
    for(int i=0;i<K::N;++i) if(isPos(K::kinds[i])) for(size_t j=0;j<a.size();++j) if(ob.ord[i][j]->c!=sh[i][j]) fail("order",tagsI<K>(i,"C16,C15").c_str(),"index %d was not restored in the saved order",i);
    adopt(t,ob); return;
  }
  if(!r.threw){ judgeLoaded<K>(t,sh,at,ie,nullptr,"C16"); return; }
  {
    Obs<K> ob; observe(t,ob);                            // consistent, complete elements only
    bool untouched=ob.cont.size()==t.cont.size(); for(auto& e:t.cont.v){ const Ent* x=ob.cont.find(e.p); if(!x||x->birth!=e.birth) untouched=false; }
    std::vector<Content> sv=sh[0]; 
    if(untouched){ Want w; wantSame(t,w); judge(t,ob,w,"C16"); } else     // the failure may precede the container's own data
    for(auto& e:ob.cont.v){ auto it=std::find(sv.begin(),sv.end(),e.c); if(it==sv.end()) fail("element-extra","C16","after a load cut short the container holds an element that was never saved"); sv.erase(it); }
    if(ob.cont.size()) ++g.st.probes[58];
    adopt(t,ob);
  }
  if(&s!=&t) judgeSame(s,"C16");
  checkGlobal();
  // recovery: the container is usable and a later load of the complete archive succeeds
  planUsed=true; g_faulttags="";
  if(foreign) return;
  if(o.a[6]&2){
    InBuf ic(d,d.size(),64,0); CallRes q=call([&]{ loadFrom(ic,t,f,&li); });
    if(q.threw) fail("load-failed","C16,C15","a load following a failed one does not succeed (%s)",q.what.c_str());
    judgeLoaded(t,sh,at,ie,&li,"C16,C15"); ++g.st.probes[59];
  }
}
