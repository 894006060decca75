#pragma once
#include "validate.hpp"
#include <memory>
struct World{ C* c=nullptr; C* d=nullptr; M m,md; Rng r; int next=1; bool exc=false; int maxn=10; int kr=KR;
  World(uint64_t s):r(s){} };
inline Val rv(World& w){ Val x; for(int i=0;i<3;++i) x.k[i]=w.r(w.kr); return x; }
inline El mk(int id,const Val& x){ return El(id,x.k[0],x.k[1],x.k[2]); }
struct Snap{ std::size_t live; long nodes; Snap():live(Live::s().size()),nodes(Mem::nodes()){} 
  void same(const char* t)const{ EXPECTM(Live::s().size()==live,t,"an element leaked or was lost"); EXPECTM(Mem::nodes()==nodes,t,"a node leaked or was lost"); } };
struct Tag{ std::string old; Tag(const char* t):old(g_optags){ g_optags+=","; g_optags+=t; } ~Tag(){ if(!std::uncaught_exceptions()) g_optags=old; } };
inline void both(World& w,bool look){ VOpt o; o.lookups=look; validate(*w.c,w.m,o); validate(*w.d,w.md,o); }
// runs call(); in exception mode first makes every user operation it performs throw, one after the other
// strong: state must be unchanged after the throw, the call is repeated. otherwise after() judges and the call is not repeated.
template<class F,class G> bool attempt(World& w,F call,G after,bool strong=true){
  ++g_ops;
  if(!w.exc){ call(); return true; }
  long k=strong?1:1+w.r(12);
  for(;;){ Snap s; Thr::n=0; Thr::at=k; Thr::mask=K_ALL; bool thrown=false;
    std::string h=g_hist;
    try{ call(); }catch(Boom&){ thrown=true; }
    Thr::at=0; Thr::on=false;
    if(!thrown){ if(strong&&k>1) hist(" (tried with user operations up to %ld throwing)",k-1); return true; }
    { Tag t("C10"); g_hist=h; hist("  (user operation %ld throws)",k);
      if(strong){ s.same("C10,C14"); both(w,w.r(6)==0); }
      else after();
      }
    if(!strong) return false;
    g_hist=h;
    k+=k<10?1:1+w.r(4); if(k>120){ call(); return true; } }
}
template<class F> bool attempt(World& w,F call){ return attempt(w,call,[]{},true); }
inline bool in(const Ids& s,int i){ return s.count(i)!=0; }

// checks the outcome of a single insertion
template<class It> void inserted(World& w,C& c,M& m,int id,const Val& x,It it,bool ok,int idx,int pos,bool hinted){
  auto b=m.blockers(x); 
  EXPECTM(ok==b.empty(),"C09",ok?"insertion of a banned element reported as done":"insertion of an element no index bans reported as refused");
  VOpt o;
  if(ok){ EXPECTM((*it).id==id,"C09,C01","insertion returns another element"); m.add(id,x,&*it,idx,pos); if(hinted) o.moved.insert(id); o.afterInsert=true; }
  else{ Tag t("C09"); EXPECTM(Live::s().count(&*it)==1&&in(b,(*it).id),"C09","returned position does not name a blocking element"); validate(c,m,o); return; }
  validate(c,m,o);
}
template<int I> auto itat(C& c,int p)->decltype(c.template get<I>().begin()){ auto it=c.template get<I>().begin(); std::advance(it,p); return it; }
template<int I> auto itof(C& c,M& m,int id)->decltype(c.template get<I>().begin()){ return c.template get<I>().iterator_to(*m.addr[id]); }
inline int pick(World& w,M& m){ auto it=m.v.begin(); std::advance(it,w.r((int)m.v.size())); return it->first; }

// ------------------------------------------------------------- insertion through a key index
template<int I> void op_insert(World& w){
  C& c=*w.c; auto& x=c.get<I>(); Val v=rv(w); int id=w.next++; int n=(int)w.m.v.size();
  if constexpr(isList(KINDS[I])){
    int pos=w.r(n+1); int how=w.r(8); bool done=false;
    hist("idx%d list insert how=%d id=%d(%d,%d,%d) at %d",I,how,id,v.k[0],v.k[1],v.k[2],pos);
    decltype(x.begin()) it; bool ok=false;
    attempt(w,[&]{ El e=mk(id,v); auto p=itat<I>(c,pos);
      switch(how){
       case 0:{ Arm a; auto q=x.insert(p,e); it=q.first; ok=q.second; break; }
       case 1:{ Arm a; auto q=x.insert(p,std::move(e)); it=q.first; ok=q.second; break; }
       case 2:{ Arm a; auto q=x.emplace(p,id,v.k[0],v.k[1],v.k[2]); it=q.first; ok=q.second; break; }
       case 3:{ Arm a; auto q=x.push_back(e); it=q.first; ok=q.second; pos=n; break; }
       case 4:{ Arm a; auto q=x.push_back(std::move(e)); it=q.first; ok=q.second; pos=n; break; }
       case 5:{ Arm a; auto q=x.emplace_back(id,v.k[0],v.k[1],v.k[2]); it=q.first; ok=q.second; pos=n; break; }
       case 6:{ Arm a; auto q=x.push_front(e); it=q.first; ok=q.second; pos=0; break; }
       case 7:{ Arm a; auto q=x.emplace_front(id,v.k[0],v.k[1],v.k[2]); it=q.first; ok=q.second; pos=0; break; } } });
    (void)done; inserted(w,c,w.m,id,v,it,ok,I,pos,false);
  } else {
    int how=w.r(7); int pos=w.r(n+1);
    hist("idx%d insert how=%d id=%d(%d,%d,%d) hint=%d",I,how,id,v.k[0],v.k[1],v.k[2],pos);
    decltype(x.begin()) it; bool ok=false; 
    attempt(w,[&]{ El e=mk(id,v); auto p=itat<I>(c,pos);
      switch(how){
       case 0:{ Arm a; auto q=x.insert(e); it=q.first; ok=q.second; break; }
       case 1:{ Arm a; auto q=x.insert(std::move(e)); it=q.first; ok=q.second; break; }
       case 2:{ Arm a; auto q=x.emplace(id,v.k[0],v.k[1],v.k[2]); it=q.first; ok=q.second; break; }
       case 3:{ Arm a; it=x.insert(p,e); break; }
       case 4:{ Arm a; it=x.insert(p,std::move(e)); break; }
       case 5:{ Arm a; it=x.emplace_hint(p,id,v.k[0],v.k[1],v.k[2]); break; }
       case 6:{ Arm a; auto q=x.insert(e); it=q.first; ok=q.second; break; } }
      if(how>=3&&how<=5) ok=(*it).id==id; });
    inserted(w,c,w.m,id,v,it,ok,I,-1,how>=3&&how<=5);
  }
}
// range insertion: elements one after the other, the banned ones skipped
template<int I> void op_insert_range(World& w){
  C& c=*w.c; auto& x=c.get<I>(); int n=(int)w.m.v.size(); int cnt=w.r(4); std::vector<El> es; es.reserve(4);
  std::vector<std::pair<int,Val>> vs; for(int i=0;i<cnt;++i){ Val v=rv(w); if(i&&w.r(3)==0) v=vs.back().second; vs.push_back({w.next++,v}); es.push_back(mk(vs.back().first,v)); }
  int pos=w.r(n+1); int how=w.r(3);
  hist("idx%d insert range of %d at %d how=%d:",I,cnt,pos,how); for(auto& e:vs) hist("%d(%d,%d,%d)",e.first,e.second.k[0],e.second.k[1],e.second.k[2]);
  bool fin=attempt(w,[&]{ 
    if constexpr(isList(KINDS[I])){ auto p=itat<I>(c,pos); Arm a; if(how==2&&cnt>=2) x.insert(p,{es[0],es[1]}); else x.insert(p,es.begin(),es.end()); }
    else{ Arm a; if(how==2&&cnt>=2) x.insert({es[0],es[1]}); else x.insert(es.begin(),es.end()); } },
   [&]{ // basic: a prefix may have been inserted
     M old=w.m; adopt(c,w.m); VOpt o; o.lookups=true; validate(c,w.m,o); validate(*w.d,w.md);
     for(auto& e:old.v) EXPECTM(w.m.v.count(e.first),"C10","range insertion that throws lost an element");
     EXPECTM((long)Live::s().size()==(long)(w.m.v.size()+w.md.v.size()+es.size()),"C10,C14","an element leaked"); },false);
  if(!fin) return;
  if(how==2&&cnt>=2) vs.resize(2);
  // replay on the model; addresses are looked up in the container
  Ids moved; VOpt o; bool any=false;
  for(auto& e:vs){ if(!w.m.blockers(e.second).empty()) continue;
    const El* p=nullptr; int k=0; for(auto& q:c.get<0>()){ if(q.id==e.first) p=&q; if(++k>200) break; }
    EXPECTM(p,"C09,C01","range insertion skipped an element no index bans");
    w.m.add(e.first,e.second,p,I,isList(KINDS[I])?pos:-1); ++pos; any=true; if(isOrd(KINDS[I])) moved.insert(e.first); }
  o.moved=moved; o.afterInsert=any; validate(c,w.m,o);
}
template<int I> void op_erase(World& w){
  C& c=*w.c; auto& x=c.get<I>(); int n=(int)w.m.v.size(); if(!n) return;
  int p=w.r(n); std::vector<int> seq=w.m.ord[I];
  int how=w.r(4);
  if(how<=1){ hist("idx%d erase position %d",I,p); decltype(x.begin()) it;
    attempt(w,[&]{ auto q=itat<I>(c,p); Arm a; it=x.erase(q); });
    EXPECTM(p+1==n?it==x.end():(it!=x.end()&&(*it).id==seq[p+1]),"C01","erase does not return the next position"); w.m.del(seq[p]); }
  else if(how==2){ int q=p+w.r(n-p+1); hist("idx%d erase [%d,%d)",I,p,q); decltype(x.begin()) it;
    attempt(w,[&]{ auto a1=itat<I>(c,p),b1=itat<I>(c,q); Arm a; it=x.erase(a1,b1); });
    EXPECTM(q==n?it==x.end():(it!=x.end()&&(*it).id==seq[q]),"C01","range erase does not return the last position"); for(int i=p;i<q;++i) w.m.del(seq[i]); }
  else{ if constexpr(!isList(KINDS[I])){ int key=w.r(w.kr); hist("idx%d erase key %d",I,key); std::size_t cnt=0; std::size_t want=0; 
      attempt(w,[&]{ Arm a; cnt=x.erase(key); });
      for(int id:seq) if(w.m.v[id].k[KEYF[I]]==key){ ++want; w.m.del(id); }
      EXPECTM(cnt==want,"C05,C03,C01","erase by key returns another count"); }
    else{ if(p&1){ hist("idx%d pop_back",I); attempt(w,[&]{ Arm a; x.pop_back(); }); w.m.del(seq[n-1]); }
      else{ hist("idx%d pop_front",I); attempt(w,[&]{ Arm a; x.pop_front(); }); w.m.del(seq[0]); } } }
  EXPECTM(Live::s().size()==w.m.v.size()+w.md.v.size(),"C14","erased element not destroyed, or another one destroyed");
  validate(c,w.m);
}
template<int I> void op_replace(World& w){
  C& c=*w.c; auto& x=c.get<I>(); int n=(int)w.m.v.size(); if(!n) return; Tag t("C01");
  int id=pick(w,w.m); Val v=rv(w); if(w.r(3)==0) v.k[w.r(3)]=w.m.v[id].k[0]; if(w.r(4)==0){ v=w.m.v[id]; v.k[w.r(3)]=w.r(w.kr); }
  int how=w.r(2); auto b=w.m.blockers(v,id); bool ok=false; int nid=id;
  hist("idx%d replace id=%d by (%d,%d,%d) how=%d",I,id,v.k[0],v.k[1],v.k[2],how);
  // an assignment that throws may leave the element in any of its two values: copies are made not to throw here
  unsigned mk0=0; (void)mk0;
  attempt(w,[&]{ El e=mk(nid,v); auto it=itof<I>(c,w.m,id); Thr::mask=K_ALL&~K_COPY; Arm a; ok=how?x.replace(it,std::move(e)):x.replace(it,e); });
  EXPECTM(ok==b.empty(),"C09",ok?"replacement by a banned value reported as done":"replacement by a value no index bans reported as refused");
  VOpt o; Tag t2(ok?"C02":"C09");
  if(ok){ w.m.v[id]=v; o.moved.insert(id); }
  validate(c,w.m,o);
}
inline bool samekeys(int i,const Val& a,const Val& b){ return isList(KINDS[i])||a.k[KEYF[i]]==b.k[KEYF[i]]; }
template<int I> void op_modify(World& w){
  C& c=*w.c; auto& x=c.get<I>(); int n=(int)w.m.v.size(); if(!n) return; Tag t("C11");
  int id=pick(w,w.m); Val old=w.m.v[id]; Val v=rv(w); int what=w.r(4); if(what<3){ Val z=old; z.k[what]=v.k[what]; v=z; }
  int how=w.r(isList(KINDS[I])?3:6); bool ok=false; 
  if(how>=3){ if constexpr(!isList(KINDS[I])){ Val z=old; z.k[KEYF[I]]=v.k[KEYF[I]]; v=z; } }
  auto b=w.m.blockers(v,id); int mode=w.r(4);
  std::vector<std::vector<int>> before; for(int i=0;i<NI;++i) before.push_back(w.m.ord[i]);
  hist("idx%d modify id=%d to (%d,%d,%d) how=%d mode=%d",I,id,v.k[0],v.k[1],v.k[2],how,mode);
  auto mod=[&](El& e){ tick(K_USER); std::memcpy(e.k,v.k,sizeof v.k); tick(K_USER); };
  bool rbcalled=false, armrb=w.exc&&mode==3;
  auto back=[&](El& e){ rbcalled=true; if(armrb){ Thr::n=0; Thr::at=1+w.r(6); } else Thr::at=0; tick(K_USER); std::memcpy(e.k,old.k,sizeof old.k); };
  auto badback=[&](El& e){ rbcalled=true; Thr::at=0; Val z=v; e.k[0]=z.k[0]; };
  bool rollback=how==1||how==2||how==4||how==5, restores=!(how==2&&mode==0&&!w.exc);
  bool thrown=false;
  const El* ad=w.m.addr[id];
  auto run=[&]{ auto it=itof<I>(c,w.m,id); Arm a;
    if constexpr(!isList(KINDS[I])){
      auto kmod=[&](int& k){ tick(K_USER); k=v.k[KEYF[I]]; }; auto kback=[&](int& k){ rbcalled=true; if(armrb){ Thr::n=0; Thr::at=1+w.r(6); } else Thr::at=0; tick(K_USER); k=old.k[KEYF[I]]; };
      if(how==3){ ok=x.modify_key(it,kmod); return; } if(how>=4){ ok=x.modify_key(it,kmod,kback); return; } }
    if(how==0) ok=x.modify(it,mod); else if(restores) ok=x.modify(it,mod,back); else ok=x.modify(it,mod,badback); };
  ++g_ops;
  if(!w.exc) run();
  else{ Thr::mask=K_ALL; Thr::n=0; Thr::at=1+w.r(20); try{ run(); }catch(Boom&){ thrown=true; hist(" (throws, rollback %d)",(int)rbcalled); } Thr::at=0; Thr::on=false; }
  VOpt o;
  if(thrown){ Tag t1("C10");
    // gone from everywhere, except when a successful rollback put it back
    bool present=false; int k=0; for(auto& e:c.get<0>()){ if(&e==ad) present=true; if(++k>100) break; }
    if(rbcalled&&rollback&&!armrb) EXPECTM(present,"C11,C10","element erased although the rollback restored it");
    if(!rbcalled) EXPECTM(!present,"C11","element kept although modify threw without a rollback");
    if(present){ validate(c,w.m); /* original place everywhere */ }
    else{ w.m.del(id); EXPECTM(Live::s().count(ad)==0||true,"C14",""); }
  } else if(ok){
    EXPECTM(b.empty(),"C11","modify reports success for a colliding value"); w.m.v[id]=v;
    o.moved.insert(id);
    // equivalent key: place unchanged
    for(int i=0;i<NI;++i) if(isOrd(KINDS[i])&&samekeys(i,old,v)){ /* position must not change: checked below */ }
  } else {
    EXPECTM(!b.empty(),"C11","modify reports failure although nothing collides");
    if(rollback){ EXPECTM(rbcalled,"C11","rollback not called");
      bool present=false; int k=0; for(auto& e:c.get<0>()){ if(&e==ad) present=true; if(++k>100) break; }
      if(restores){ EXPECTM(present,"C11","element erased although the rollback restored it"); }
      else{ if(present){ Val z=old; /* a rollback that does not restore: element erased or consistent */ adopt(c,w.m); (void)z; } else w.m.del(id); }
    } else w.m.del(id);
  }
  EXPECTM(Live::s().size()==w.m.v.size()+w.md.v.size(),"C11,C14","modify leaked or destroyed an element");
  validate(c,w.m,o);
  if(!thrown&&ok) for(int i=0;i<NI;++i) if(isOrd(KINDS[i])&&samekeys(i,old,v)) EXPECTM(w.m.ord[i]==before[i],"C11","modify moved an element whose key did not change");
}
template<int I> void op_nh(World& w){
  C& c=*w.c; auto& x=c.get<I>(); int n=(int)w.m.v.size(); if(!n) return; Tag t("C13");
  std::vector<int> seq=w.m.ord[I]; int p=w.r(n); int id=seq[p]; Val v=w.m.v[id]; const El* ad=w.m.addr[id];
  typename C::node_type nh; int how=w.r(3);
  hist("idx%d extract position %d (id %d) how=%d",I,p,id,how);
  if(how==0||isList(KINDS[I])) attempt(w,[&]{ auto q=itat<I>(c,p); Arm a; nh=x.extract(q); });
  else{ if constexpr(!isList(KINDS[I])){ int key=v.k[KEYF[I]]; attempt(w,[&]{ Arm a; nh=x.extract(key); });
      EXPECTM(!nh.empty(),"C13","extract by key found nothing"); id=nh.value().id; EXPECTM(w.m.v.count(id)&&w.m.v[id].k[KEYF[I]]==key,"C13","extract by key took another element"); ad=w.m.addr[id]; v=w.m.v[id];
      EXPECTM(std::find_if(seq.begin(),seq.end(),[&](int q){return w.m.v[q].k[KEYF[I]]==key;})!=seq.end()&&seq[std::find_if(seq.begin(),seq.end(),[&](int q){return w.m.v[q].k[KEYF[I]]==key;})-seq.begin()]==id,"C13","extract by key did not take the first equivalent element"); } }
  EXPECTM(!nh.empty()&&(bool)nh&&&nh.value()==ad,"C13","node handle does not own the extracted element");
  w.m.del(id); EXPECTM(Live::s().size()==w.m.v.size()+w.md.v.size()+1,"C13,C14","extract copied or lost the element");
  validate(c,w.m);
  int what=w.r(5);
  if(what==0){ hist("drop node"); nh=typename C::node_type(); EXPECTM(Live::s().size()==w.m.v.size()+w.md.v.size(),"C13,C14","node handle does not destroy its element exactly once"); return; }
  if(what==1){ Val z=rv(w); std::memcpy(nh.value().k,z.k,sizeof z.k); v=z; hist("node value:=(%d,%d,%d)",v.k[0],v.k[1],v.k[2]); }
  if(what==2){ typename C::node_type n2(std::move(nh)); EXPECTM(nh.empty()&&!n2.empty(),"C13","move of a node handle"); nh.swap(n2); EXPECTM(!nh.empty()&&n2.empty(),"C13","swap of node handles"); 
    typename C::node_type n3; n3=std::move(nh); EXPECTM(nh.empty(),"C13","move assignment of a node handle"); nh=std::move(n3); EXPECTM(!nh.empty()&&&nh.value()==ad,"C13","move assignment of a node handle"); }
  // insert it again, into this container or the other one
  bool other=w.r(2); C& t2=other?*w.d:*w.c; M& tm=other?w.md:w.m; auto& y=t2.get<I>(); int tn=(int)tm.v.size(); int pos=w.r(tn+1); bool hint=w.r(2);
  hist("insert node into %s idx%d pos=%d hint=%d",other?"other":"same",I,pos,(int)hint);
  auto b=tm.blockers(v); bool ok=false; decltype(y.begin()) it; bool got=false;
  Snap s; 
  attempt(w,[&]{ auto q=itat<I>(t2,pos);
    if constexpr(isList(KINDS[I])){ Arm a; auto r=y.insert(q,std::move(nh)); it=r.position; ok=r.inserted; Disarm dd; nh=std::move(r.node); got=!nh.empty(); }
    else if(hint){ Arm a; it=y.insert(q,std::move(nh)); Disarm dd; ok=&*it==ad; got=!nh.empty(); }
    else{ Arm a; auto r=y.insert(std::move(nh)); it=r.position; ok=r.inserted; Disarm dd; nh=std::move(r.node); got=!nh.empty(); } });
  EXPECTM(ok==b.empty(),"C09,C13",ok?"node of a banned element inserted":"node insertion refused although no index bans it");
  EXPECTM(got==!ok,"C13",ok?"node handle still owns an inserted element":"refused node not returned in the handle");
  EXPECTM(Live::s().size()==w.m.v.size()+w.md.v.size()+1,"C13,C14","node insertion copied or lost the element");
  VOpt o; o.afterInsert=ok;
  if(ok){ EXPECTM(&*it==ad,"C13","node insertion returns another element"); tm.add(id,v,ad,I,isList(KINDS[I])?pos:-1); if(hint&&!isList(KINDS[I])) o.moved.insert(id); }
  else{ EXPECTM(in(b,(*it).id),"C09,C13","returned position does not name a blocking element"); EXPECTM(&nh.value()==ad&&nh.value().id==id,"C13","refused node changed"); }
  validate(t2,tm,o); 
  nh=typename C::node_type(); EXPECTM(Live::s().size()==w.m.v.size()+w.md.v.size(),"C13,C14","node handle does not release its element exactly once");
  // empty handle
  typename C::node_type eh; EXPECTM(eh.empty()&&!eh,"C13","default node handle is not empty");
  if constexpr(!isList(KINDS[I])){ auto r=x.insert(std::move(eh)); EXPECTM(!r.inserted&&r.position==x.end()&&r.node.empty(),"C13","insertion of an empty node handle"); }
  validate(*w.c,w.m); 
}
// merge (key indices) and splice (list indices) from the other container
template<int I,int J> void op_transfer(World& w){
  C& c=*w.c; C& d=*w.d; auto& x=c.get<I>(); auto& y=d.get<J>(); Tag t("C13");
  int n=(int)w.m.v.size(), nd=(int)w.md.v.size(); std::vector<int> src=w.md.ord[J]; int pos=w.r(n+1);
  int a0=w.r(nd+1), b0=a0+w.r(nd-a0+1); int how=w.r(3); if(how==1&&(nd==0)) how=0; if(how==1&&a0==nd) a0=nd-1;
  hist("transfer idx%d<-idx%d of other how=%d [%d,%d) pos=%d",I,J,how,a0,b0,pos);
  std::vector<int> cand; if(how==0) cand=src; else if(how==1) cand.push_back(src[a0]); else cand.assign(src.begin()+a0,src.begin()+b0);
  bool retok=false; bool one=how==1; const El* retp=nullptr; 
  Snap s;
  bool fin=attempt(w,[&]{ 
    auto i1=itat<J>(d,a0); auto i2=itat<J>(d,how==2?b0:a0);
    if constexpr(isList(KINDS[I])){ auto p=itat<I>(c,pos); Arm a;
      if(how==0) x.splice(p,y); else if(how==1){ auto r=x.splice(p,y,i1); Disarm q; retok=r.second; if(r.first!=x.end()) retp=&*r.first; } else x.splice(p,y,i1,i2); }
    else{ Arm a; if(how==0) x.merge(y); else if(how==1){ auto r=x.merge(y,i1); Disarm q; retok=r.second; if(r.first!=x.end()) retp=&*r.first; } else x.merge(y,i1,i2); } },
   [&]{ s.same("C10,C13,C14"); M o1=w.m,o2=w.md; adopt(c,w.m); adopt(d,w.md);
     EXPECTM(w.m.v.size()+w.md.v.size()==o1.v.size()+o2.v.size(),"C10,C13","transfer that throws lost an element");
     for(auto& e:o1.addr) EXPECTM(w.m.addr.count(e.first)&&w.m.addr[e.first]==e.second,"C10,C12,C13","transfer that throws lost an element");
     for(auto& e:o2.addr) EXPECTM((w.m.addr.count(e.first)&&w.m.addr[e.first]==e.second)||(w.md.addr.count(e.first)&&w.md.addr[e.first]==e.second),"C10,C12,C13","transfer that throws lost an element");
     both(w,true); },false);
  if(!fin) return;
  s.same("C13,C14"); Ids moved; bool any=false;
  for(int id:cand){ Val v=w.md.v[id]; auto b=w.m.blockers(v); const El* p=w.md.addr[id];
    if(one){ EXPECTM(retok==b.empty(),"C13,C09",retok?"banned element transferred":"transfer refused although no index bans the element"); EXPECTM(retp&&(b.empty()?retp==p:in(b,retp->id)),"C13,C09","transfer returns a position that is neither the element nor a blocking one"); }
    if(!b.empty()) continue;
    w.md.del(id); w.m.add(id,v,p,I,isList(KINDS[I])?pos:-1); ++pos; any=true; }
  VOpt o; o.afterInsert=any; (void)moved; validate(c,w.m,o); validate(d,w.md);
}
template<int I> void op_list(World& w){
 if constexpr(isList(KINDS[I])){
  C& c=*w.c; auto& x=c.get<I>(); int n=(int)w.m.v.size(); auto& s=w.m.ord[I]; Tag t(ordtag<I>()); VOpt o;
  int how=w.r(14); int p=w.r(n+1), a=w.r(n+1), b=a+w.r(n-a+1); Val v=rv(w);
  auto val=[&](int id){ return w.m.v[id].k[0]; };
  switch(how){
  case 0: if(!n) return; if(a==n) a=n-1; hist("idx%d relocate(%d,%d)",I,p,a); attempt(w,[&]{ auto P=itat<I>(c,p),A=itat<I>(c,a); Arm q; x.relocate(P,A); });
    { int id=s[a]; std::vector<int> r(s); if(p!=a){ r.erase(r.begin()+a); r.insert(r.begin()+(p>a?p-1:p),id); } s=r; } break;
  case 1: { if(p>a&&p<b) p=b; if(p==a&&false) p=a; hist("idx%d relocate(%d,[%d,%d))",I,p,a,b); if(p>=a&&p<b) p=a; 
    if(p==a&&a<b){ p=b; }  // position must lie outside the range
    attempt(w,[&]{ auto P=itat<I>(c,p),A=itat<I>(c,a),B=itat<I>(c,b); Arm q; x.relocate(P,A,B); });
    std::vector<int> mid(s.begin()+a,s.begin()+b),r; for(int i=0;i<=n;++i){ if(i==p) r.insert(r.end(),mid.begin(),mid.end()); if(i<n&&(i<a||i>=b)) r.push_back(s[i]); } s=r; } break;
  case 2: { std::vector<int> perm(s); for(int i=n-1;i>0;--i) std::swap(perm[i],perm[w.r(i+1)]); hist("idx%d rearrange",I);
    std::vector<std::reference_wrapper<const El>> rf; for(int id:perm) rf.push_back(std::cref(*w.m.addr[id]));
    attempt(w,[&]{ Arm q; x.rearrange(rf.begin()); }); s=perm; } break;
  case 3: hist("idx%d reverse",I); attempt(w,[&]{ Arm q; x.reverse(); }); std::reverse(s.begin(),s.end()); break;
  case 4: { hist("idx%d sort by key 0",I); bool fin=attempt(w,[&]{ Arm q; x.sort([](const El& e,const El& f){ tick(K_CMP); e.chk(); f.chk(); return e.k[0]<f.k[0]; }); },
      [&]{ M old=w.m; for(auto& e:w.m.ord[I]) (void)e; std::vector<int> cur; int k=0; for(auto& e:x){ if(++k>n) break; cur.push_back(e.id); } w.m.ord[I]=cur; validate(c,w.m); },false);
    if(!fin) return; std::stable_sort(s.begin(),s.end(),[&](int e,int f){ return val(e)<val(f); }); } break;
  case 5: { int k=w.r(w.kr); hist("idx%d remove_if key0==%d",I,k); bool fin=attempt(w,[&]{ Arm q; x.remove_if([&](const El& e){ tick(K_USER); e.chk(); return e.k[0]==k; }); },
      [&]{ M old=w.m; adopt(c,w.m); for(auto& e:w.m.v) EXPECTM(old.v.count(e.first),"C10","element appeared"); for(auto& e:old.v) if(e.second.k[0]!=k) EXPECTM(w.m.v.count(e.first),"C10","remove_if that throws lost an element"); std::vector<int> r; for(int id:old.ord[I]) if(w.m.v.count(id)) r.push_back(id); EXPECTM(w.m.ord[I]==r,"C10,C07,C08","remove_if that throws changed the order"); validate(c,w.m); },false);
    if(!fin) return; std::vector<int> q(s); for(int id:q) if(val(id)==k) w.m.del(id); } break;
  case 6: { hist("idx%d unique by key 0",I); bool fin=attempt(w,[&]{ Arm q; x.unique([](const El& e,const El& f){ tick(K_USER); e.chk(); f.chk(); return e.k[0]==f.k[0]; }); },
      [&]{ M old=w.m; adopt(c,w.m); for(auto& e:w.m.v) EXPECTM(old.v.count(e.first),"C10","element appeared"); std::vector<int> r; for(int id:old.ord[I]) if(w.m.v.count(id)) r.push_back(id); EXPECTM(w.m.ord[I]==r,"C10,C07,C08","unique that throws changed the order"); validate(c,w.m); },false);
    if(!fin) return; std::vector<int> q(s); for(int i=1,l=0;i<n;++i){ if(val(q[i])==val(q[l])) w.m.del(q[i]); else l=i; } } break;
  case 7: { hist("idx%d merge sorted",I); C& d=*w.d; auto& y=d.get<I>(); auto cmp=[](const El& e,const El& f){ tick(K_CMP); e.chk(); f.chk(); return e.k[0]<f.k[0]; };
    x.sort(cmp); y.sort(cmp); std::stable_sort(s.begin(),s.end(),[&](int e,int f){ return val(e)<val(f); }); auto& sd=w.md.ord[I]; std::stable_sort(sd.begin(),sd.end(),[&](int e,int f){ return w.md.v[e].k[0]<w.md.v[f].k[0]; });
    std::vector<int> s1=s,s2=sd; Snap sn;
    bool fin=attempt(w,[&]{ Arm q; x.merge(y,cmp); },[&]{ sn.same("C10,C14"); std::size_t tot=w.m.v.size()+w.md.v.size(); adopt(c,w.m); adopt(d,w.md); EXPECTM(w.m.v.size()+w.md.v.size()==tot,"C10","merge that throws lost an element"); both(w,true); },false);
    if(!fin) return; sn.same("C13,C14");
    // elements are taken one after the other; those banned stay
    std::vector<int> acc; std::map<int,Val> av; M keep=w.m;
    // list: merge step by step as std::list::merge would; banned elements stay behind
    Ids inn; for(auto& e:c.get<0>()) inn.insert(e.id);
    std::vector<int> taken; for(int id:s2){ auto bl=w.m.blockers(w.md.v[id]); bool isin=inn.count(id); EXPECTM(isin==bl.empty(),"C13,C09","merge transferred a banned element or left an acceptable one"); if(isin){ Val vv=w.md.v[id]; auto ad=w.md.addr[id]; w.md.del(id); w.m.add(id,vv,ad); taken.push_back(id); } }
    std::vector<int> r; std::merge(s1.begin(),s1.end(),taken.begin(),taken.end(),std::back_inserter(r),[&](int e,int f){ return val(e)<val(f); });
    w.m.ord[I]=r; Ids mv(taken.begin(),taken.end()); o.moved=mv; validate(c,w.m,o); validate(d,w.md); return; }
  case 8: { if(!n) return; if(a==n) a=n-1; hist("idx%d splice self(%d,%d)",I,p,a); bool r2=false; attempt(w,[&]{ auto P=itat<I>(c,p),A=itat<I>(c,a); Arm q; r2=x.splice(P,x,A).second; });
    EXPECTM(r2,"C07,C08,C13","splice within the container reports failure"); int id=s[a]; std::vector<int> r(s); if(p!=a){ r.erase(r.begin()+a); r.insert(r.begin()+(p>a?p-1:p),id); } s=r; } break;
  case 9: { if(p>=a&&p<b) p=b; hist("idx%d splice self(%d,[%d,%d))",I,p,a,b);
    attempt(w,[&]{ auto P=itat<I>(c,p),A=itat<I>(c,a),B=itat<I>(c,b); Arm q; x.splice(P,x,A,B); });
    std::vector<int> mid(s.begin()+a,s.begin()+b),r; for(int i=0;i<=n;++i){ if(i==p) r.insert(r.end(),mid.begin(),mid.end()); if(i<n&&(i<a||i>=b)) r.push_back(s[i]); } s=r; } break;
  case 10: { int m2=w.r(n+1); hist("idx%d resize(%d)",I,m2); El fill=mk(w.next++,v); attempt(w,[&]{ Arm q; x.resize(m2,fill); }); while((int)s.size()>m2) w.m.del(s.back()); } break;
  case 11: { // insert n copies: all equal, so unique indices take at most one
    int id=w.next++; int cnt=hasUnique()?w.r(3):1; hist("idx%d insert(pos %d,%d copies id %d)",I,p,cnt,id); El e=mk(id,v); bool fin=attempt(w,[&]{ auto P=itat<I>(c,p); Arm q; x.insert(P,(std::size_t)cnt,e); },[&]{ adopt(c,w.m); validate(c,w.m); },false);
    if(!fin) return;
    if(cnt&&w.m.blockers(v).empty()){ const El* ad=nullptr; int k=0; for(auto& q:c.get<0>()){ if(q.id==id) ad=&q; if(++k>100) break; } EXPECTM(ad,"C09,C01","insertion of copies inserted nothing"); w.m.add(id,v,ad,I,p); o.afterInsert=true; } } break;
  case 12: { int cnt=w.r(4); std::vector<El> es; es.reserve(4); std::vector<std::pair<int,Val>> vs; for(int i=0;i<cnt;++i){ vs.push_back({w.next++,rv(w)}); es.push_back(mk(vs.back().first,vs.back().second)); }
    hist("idx%d assign %d elements",I,cnt); bool fin=attempt(w,[&]{ Arm q; x.assign(es.begin(),es.end()); },[&]{ adopt(c,w.m); validate(c,w.m); },false); if(!fin) return;
    w.m.clear(); for(auto& e:vs){ if(!w.m.blockers(e.second).empty()) continue; const El* ad=nullptr; int k=0; for(auto& q:c.get<0>()){ if(q.id==e.first) ad=&q; if(++k>100) break; } EXPECTM(ad,"C09,C01","assign skipped an element"); w.m.add(e.first,e.second,ad); } } break;
  case 13: if constexpr(KINDS[I]==RA){ int q=w.r(3); hist("idx%d capacity op %d",I,q); std::size_t want=x.size()+w.r(40);
      if(q==0){ attempt(w,[&]{ Arm a1; x.reserve(want); }); EXPECTM(x.capacity()>=want,"C08","capacity below the reserved one"); }
      else if(q==1){ attempt(w,[&]{ Arm a1; x.shrink_to_fit(); }); EXPECTM(x.capacity()>=x.size(),"C08","capacity below size"); }
      else{ bool th=false; try{ (void)x.at(n+w.r(5)); }catch(std::out_of_range&){ th=true; } EXPECTM(th,"C08","at out of range does not throw"); } } break;
  }
  validate(c,w.m,o);
 }
}
template<int I> void op_hash(World& w){
 if constexpr(isHash(KINDS[I])){
  C& c=*w.c; auto& x=c.get<I>(); Tag t("C06"); int how=w.r(3); std::vector<int> old=w.m.ord[I];
  std::size_t bc0=x.bucket_count();
  if(how==0){ std::size_t n=w.r(5)==0?0:w.r(4)==0?500+w.r(300):w.r(150); hist("idx%d rehash(%d)",I,(int)n); std::vector<int> b4=old;
    attempt(w,[&]{ Arm a; x.rehash(n); }); EXPECTM(x.bucket_count()>=n,"C06","fewer buckets than requested");
    EXPECTM(x.size()<=(double)x.max_load_factor()*x.bucket_count()+1e-3,"C06","load factor above the maximum after rehash"); }
  else if(how==1){ std::size_t n=w.r(120); hist("idx%d reserve(%d)",I,(int)n); attempt(w,[&]{ Arm a; x.reserve(n); });
    EXPECTM((double)x.bucket_count()*x.max_load_factor()+1e-3>=n,"C06","reserve leaves too few buckets"); }
  else{ static const float z[]={0.01f,0.05f,0.25f,0.5f,1.0f,2.0f,7.5f}; float f=z[w.r(7)]; hist("idx%d max_load_factor(%g)",I,f); x.max_load_factor(f); EXPECTM(x.max_load_factor()==f,"C06","max_load_factor"); }
  (void)bc0;
  validate(c,w.m);
  // equivalent elements keep their relative order
  std::map<int,std::vector<int>> g1,g2; for(int id:old) g1[w.m.v[id].k[KEYF[I]]].push_back(id); for(int id:w.m.ord[I]) g2[w.m.v[id].k[KEYF[I]]].push_back(id);
  EXPECTM(g1==g2,"C06","rehash changed the relative order of equivalent elements");
 }
}
template<int I> void cmp_idx(C& a,M& ma,C& b,M& mb){
  if constexpr(!isHash(KINDS[I])){ auto va=[&](M& m){ std::vector<El> r; r.reserve(m.v.size()); for(int id:m.ord[I]) r.push_back(mk(id,m.v[id])); return r; };
    auto x=va(ma),y=va(mb); auto& ia=a.template get<I>(); auto& ib=b.template get<I>();
    EXPECTM((ia==ib)==(x==y),"C15","operator== differs from the comparison of the traversals"); EXPECTM((ia!=ib)==(x!=y),"C15","operator!="); EXPECTM((ia<ib)==(x<y),"C15","operator<"); EXPECTM((ia>ib)==(y<x),"C15","operator>"); EXPECTM((ia<=ib)==!(y<x),"C15","operator<="); EXPECTM((ia>=ib)==!(x<y),"C15","operator>="); }
  else{ auto ms=[&](M& m){ std::multiset<std::vector<int>> r; for(auto& e:m.v) r.insert({e.first,e.second.k[0],e.second.k[1],e.second.k[2]}); return r; };
    bool e=ms(ma)==ms(mb); EXPECTM((a.template get<I>()==b.template get<I>())==e,"C15","hashed operator== differs from the comparison as multisets"); EXPECTM((a.template get<I>()!=b.template get<I>())==!e,"C15","hashed operator!="); }
}
template<int... Is> void cmpall(C& a,M& ma,C& b,M& mb,std::integer_sequence<int,Is...>){ Disarm d; (cmp_idx<Is>(a,ma,b,mb),...); }
// model of a copy: same ids, same orders, addresses read from the copy
inline M copymodel(C& e,const M& m,const char* tags){ M r; r.v=m.v; for(int i=0;i<NI;++i) r.ord[i]=m.ord[i]; int k=0; for(auto& q:e.get<0>()){ r.addr[q.id]=&q; if(++k>1000) break; }
  EXPECTM(r.addr.size()==m.v.size(),tags,"copy does not hold the same elements"); for(auto& x:m.addr) EXPECTM(r.addr.count(x.first)&&r.addr[x.first]!=x.second,tags,"copy shares an element"); return r; }
template<int... Is> void hashorder(C& a,C& b,M& m,const char* tags,std::integer_sequence<int,Is...>){ (void)a;(void)b;(void)m;(void)tags; }
inline void op_whole(World& w){
  C& c=*w.c; int how=w.r(10); Tag t("C15"); Snap s0;
  switch(how){
  case 0: case 1:{ int al=how?c.get_allocator().id:5; hist("copy construct (allocator %d)",al); C* e=nullptr;
    attempt(w,[&]{ Arm a; e=how?new C(c):new C(c,TA<El>(al)); });
    M me=copymodel(*e,w.m,"C15"); VOpt o; validate(*e,me,o); validate(c,w.m); cmpall(c,w.m,*e,me,std::make_integer_sequence<int,NI>()); EXPECTM(e->get_allocator().id==al,"C15","allocator of the copy");
    for(int i=0;i<NI;++i) if(!isHash(KINDS[i])) EXPECTM(me.ord[i]==w.m.ord[i],"C15","copy has another order");
    // independence
    if(!me.v.empty()){ int id=me.v.begin()->first; e->get<0>().erase(e->get<0>().iterator_to(*me.addr[id])); me.del(id); validate(*e,me); validate(c,w.m); cmpall(c,w.m,*e,me,std::make_integer_sequence<int,NI>()); }
    { auto r=e->get<0>().begin(); (void)r; Val v=rv(w); int id=w.next++; El el=mk(id,v); C::node_type nn; (void)nn; }
    delete e; s0.same("C14,C15"); } break;
  case 2:{ hist("copy assign from other"); attempt(w,[&]{ Arm a; c=*w.d; }); M me=copymodel(c,w.md,"C15"); w.m=me; validate(c,w.m); validate(*w.d,w.md); cmpall(c,w.m,*w.d,w.md,std::make_integer_sequence<int,NI>());
    w.d->clear(); w.md.clear(); validate(c,w.m); } break;
  case 3:{ hist("move construct and back"); { C e(std::move(c)); { M x; validate(c,x); validate(e,w.m); } c=std::move(e); { M x; adopt(e,x); validate(e,x); } validate(c,w.m); } s0.same("C14,C15"); } break;
  case 4:{ hist("swap"); { Arm a; if(w.r(2)) c.swap(*w.d); else swap(c,*w.d); } w.m.swap(w.md); both(w,true); s0.same("C14,C15"); } break;
  case 5:{ hist("move assign from other"); c=std::move(*w.d); w.m=w.md; adopt(*w.d,w.md); both(w,true); } break;
  case 6:{ hist("self assignment"); attempt(w,[&]{ Arm a; C& q=c; c=q; }); { std::map<int,const El*> na; int k=0; for(auto& e:c.get<0>()){ na[e.id]=&e; if(++k>1000) break; } w.m.addr=na; } validate(c,w.m); } break;
  case 7:{ hist("clear"); if(w.r(3)==0){ c.clear(); w.m.clear(); } both(w,true); } break;
  case 8:{ int n=w.r(4); std::vector<El> es; es.reserve(4); std::vector<std::pair<int,Val>> vs; for(int i=0;i<n;++i){ Val v=rv(w); if(i&&w.r(3)==0) v.k[0]=vs[0].second.k[0]; vs.push_back({w.next++,v}); es.push_back(mk(vs[i].first,v)); }
    hist("construct from range of %d / initializer list assignment",n); C* e=nullptr; attempt(w,[&]{ Arm a; e=new C(es.begin(),es.end()); });
    if(n>=3){ Snap s1; attempt(w,[&]{ Arm a; *e={es[0],es[1],es[2]}; }); }
    M me; for(auto& q:vs){ if(!me.blockers(q.second).empty()) continue; const El* p=nullptr; for(auto& z:e->get<0>()) if(z.id==q.first) p=&z; EXPECTM(p,"C15,C09","construction from a range skipped an element no index bans"); me.add(q.first,q.second,p); }
    VOpt o; for(auto& q:me.v) o.moved.insert(q.first); validate(*e,me,o); delete e; } break;
  case 9:{ hist("move construct with another allocator"); if(w.r(3)) return; C e(std::move(c),TA<El>(7)); M me; me.v=w.m.v; for(int i=0;i<NI;++i) me.ord[i]=w.m.ord[i]; int k=0; for(auto& q:e.get<0>()){ me.addr[q.id]=&q; if(++k>1000) break; }
    EXPECTM(me.addr.size()==w.m.v.size(),"C15","move with another allocator lost elements"); validate(e,me); EXPECTM(e.get_allocator().id==7,"C15","allocator"); c.clear(); w.m.clear(); validate(c,w.m); 
    c=e; { M x=copymodel(c,me,"C15"); w.m=x; } validate(c,w.m); } break;
  }
  cmpall(*w.c,w.m,*w.d,w.md,std::make_integer_sequence<int,NI>());
}
template<int I> void op_idx(World& w,unsigned sel){
  // sel: bit set of operation families
  for(int g=0;g<50;++g){ int f=w.r(12); if(!(sel>>f&1)) continue;
    switch(f){ case 0: case 1: case 2: op_insert<I>(w); return; case 3: op_insert_range<I>(w); return; case 4: op_erase<I>(w); return; case 5: op_replace<I>(w); return;
     case 6: op_modify<I>(w); return; case 7: op_nh<I>(w); return; case 8: { int j=w.r(2); if(j) op_transfer<I,0>(w); else op_transfer<I,NI-1>(w); return; }
     case 9: op_list<I>(w); return; case 10: op_hash<I>(w); return; case 11: op_whole(w); return; } }
}
template<int... Is> void dispatch(World& w,unsigned sel,int i,std::integer_sequence<int,Is...>){ (void)((i==Is?(op_idx<Is>(w,sel),true):false)||...); }
