#pragma once
#include "h.hpp"
#include <cstdarg>
template<int I> constexpr const char* ordtag(){ return isOrd(KINDS[I])?"C02":KINDS[I]==SQ?"C07":KINDS[I]==RA?"C08":"C05"; }
typedef std::set<int> Ids;
struct VOpt{ Ids moved; bool lookups=true; bool afterInsert=false; };

template<int I,class Ix> void val_ordered(const Ix& x,M& m,const std::vector<int>& seq){
  const int G=GREATER[I], F=KEYF[I]; const int n=(int)seq.size();
  auto kk=[&](int p){ return m.v[seq[p]].k[F]; };
  auto lt=[&](int a,int b){ return G?a>b:a<b; };
  for(int p=0;p+1<n;++p){ EXPECTM(!lt(kk(p+1),kk(p)),"C02","ordered index is not sorted");
    if(isUniq(KINDS[I])) EXPECTM(lt(kk(p),kk(p+1)),"C02,C09","unique ordered index holds equivalent elements"); }
  std::vector<decltype(x.begin())> its; for(auto it=x.begin();it!=x.end();++it) its.push_back(it); its.push_back(x.end());
  auto posof=[&](decltype(x.begin()) it){ if(it==x.end()) return n; for(int p=0;p<n;++p) if(its[p]==it) return p; return -1; };
  const double lim=2*std::log2((double)n+1)+1.0001;
  for(int key=-1;key<=KR;++key){
    int lo=0; while(lo<n&&lt(kk(lo),key)) ++lo;
    int hi=lo; while(hi<n&&!lt(key,kk(hi))) ++hi;
    Thr::ncmp=0; int L=posof(x.lower_bound(key));
    EXPECTM(Thr::ncmp<=lim,"C02","search depth is not logarithmic");
    EXPECTM(L==lo,"C03","lower_bound");
    EXPECTM(posof(x.upper_bound(key))==hi,"C03","upper_bound");
    int f=posof(x.find(key));
    EXPECTM(lo==hi?f==n:(f>=lo&&f<hi),"C03","find");
    EXPECTM((int)x.count(key)==hi-lo,"C03,C04","count");
    EXPECTM(x.contains(key)==(hi>lo),"C03","contains");
    auto er=x.equal_range(key);
    EXPECTM(posof(er.first)==lo&&posof(er.second)==hi,"C03","equal_range");
    // compatible comparison
    Wide w{key}; int wl=0; while(wl<n&&(G?(kk(wl)>>1)>key:(kk(wl)>>1)<key)) ++wl; int wh=wl; while(wh<n&&(kk(wh)>>1)==key) ++wh;
    typedef typename std::conditional<GREATER[I],CmpWG,CmpW>::type CW;
    EXPECTM(posof(x.lower_bound(w,CW()))==wl&&posof(x.upper_bound(w,CW()))==wh,"C03","lower/upper_bound with a compatible key");
    auto we=x.equal_range(w,CW()); EXPECTM(posof(we.first)==wl&&posof(we.second)==wh,"C03","equal_range with a compatible key");
    EXPECTM((int)x.count(w,CW())==wh-wl,"C03,C04","count with a compatible key");
    int wf=posof(x.find(w,CW())); EXPECTM(wl==wh?wf==n:(wf>=wl&&wf<wh),"C03","find with a compatible key");
    auto ge=[&](int y){ return !lt(y,key); }; auto gt=[&](int y){ return lt(key,y); };
    auto r1=x.range(ge,mi::unbounded); EXPECTM(posof(r1.first)==lo&&posof(r1.second)==n,"C03","range(lower,unbounded)");
    auto r2=x.range(mi::unbounded,[&](int y){ return !gt(y); }); EXPECTM(posof(r2.first)==0&&posof(r2.second)==hi,"C03","range(unbounded,upper)");
    for(int k2=key;k2<=KR&&k2>=-1;k2+=2){
      int a=key,b=k2; if(lt(b,a)) std::swap(a,b);
      int l2=0; while(l2<n&&lt(kk(l2),a)) ++l2; int h2=l2; while(h2<n&&!lt(b,kk(h2))) ++h2;
      auto r=x.range([&](int y){ return !lt(y,a); },[&](int y){ return !lt(b,y); });
      EXPECTM(posof(r.first)==l2&&posof(r.second)==h2,"C03","range(lower,upper)");
      // crossed bounds give an empty range
      auto rx=x.range([&](int y){ return lt(b,y); },[&](int y){ return lt(y,a); });
      EXPECTM(rx.first==rx.second,"C03","range with crossed bounds is not empty");
      if constexpr(isRnk(KINDS[I])){ auto rr=x.range_rank([&](int y){ return !lt(y,a); },[&](int y){ return !lt(b,y); });
        EXPECTM((int)rr.first==l2&&(int)rr.second==h2,"C04","range_rank(lower,upper)"); 
        auto rz=x.range_rank([&](int y){ return lt(b,y); },[&](int y){ return lt(y,a); }); EXPECTM(rz.first==rz.second,"C04","range_rank with crossed bounds is not empty"); }
    }
    if constexpr(isRnk(KINDS[I])){
      EXPECTM((int)x.lower_bound_rank(key)==lo,"C04","lower_bound_rank"); EXPECTM((int)x.upper_bound_rank(key)==hi,"C04","upper_bound_rank");
      auto e2=x.equal_range_rank(key); EXPECTM((int)e2.first==lo&&(int)e2.second==hi,"C04","equal_range_rank");
      int fr=(int)x.find_rank(key); EXPECTM(lo==hi?fr==n:(fr>=lo&&fr<hi),"C04","find_rank");
      EXPECTM((int)x.lower_bound_rank(w,CW())==wl&&(int)x.upper_bound_rank(w,CW())==wh,"C04","lower/upper_bound_rank with a compatible key");
      auto e3=x.equal_range_rank(w,CW()); EXPECTM((int)e3.first==wl&&(int)e3.second==wh,"C04","equal_range_rank with a compatible key");
      auto r3=x.range_rank(ge,mi::unbounded); EXPECTM((int)r3.first==lo&&(int)r3.second==n,"C04","range_rank(lower,unbounded)");
      auto r4=x.range_rank(mi::unbounded,[&](int y){ return !gt(y); }); EXPECTM((int)r4.first==0&&(int)r4.second==hi,"C04","range_rank(unbounded,upper)");
    }
  }
  auto ra=x.range(mi::unbounded,mi::unbounded); EXPECTM(posof(ra.first)==0&&posof(ra.second)==n,"C03","range(unbounded,unbounded)");
  if constexpr(isRnk(KINDS[I])){
    auto rb=x.range_rank(mi::unbounded,mi::unbounded); EXPECTM(rb.first==0&&(int)rb.second==n,"C04","range_rank(unbounded,unbounded)");
    for(int p=0;p<=n;++p){ EXPECTM(x.nth(p)==its[p],"C04","nth"); EXPECTM((int)x.rank(its[p])==p,"C04","rank"); }
    EXPECTM(x.nth(n+3)==x.end(),"C04","nth past the end");
  }
}
template<int I,class Ix> void val_hashed(const Ix& x,M& m,const std::vector<int>& seq,const VOpt& o){
  const int F=KEYF[I]; const int n=(int)seq.size(); auto kk=[&](int p){ return m.v[seq[p]].k[F]; };
  std::map<int,int> first,len; 
  for(int p=0;p<n;++p){ int k=kk(p); if(!first.count(k)){ first[k]=p; len[k]=0; }
    EXPECTM(first[k]+len[k]==p,"C05","equivalent elements are not adjacent"); ++len[k]; 
    if(isUniq(KINDS[I])) EXPECTM(len[k]==1,"C05,C09","unique hashed index holds equivalent elements"); }
  std::vector<decltype(x.begin())> its; for(auto it=x.begin();it!=x.end();++it) its.push_back(it); its.push_back(x.end());
  auto posof=[&](decltype(x.begin()) it){ if(it==x.end()) return n; for(int p=0;p<n;++p) if(its[p]==it) return p; return -1; };
  for(int key=-1;key<=KR;++key){
    int lo=first.count(key)?first[key]:n, hi=first.count(key)?lo+len[key]:n;
    int f=posof(x.find(key)); EXPECTM(lo==hi?f==n:(f>=lo&&f<hi),"C05","find");
    EXPECTM((int)x.count(key)==hi-lo,"C05","count"); EXPECTM(x.contains(key)==(hi>lo),"C05","contains");
    auto e=x.equal_range(key); int a=posof(e.first),b=posof(e.second);
    EXPECTM(lo==hi?(a==b):(a==lo&&b==hi),"C05","equal_range");
    if(lo!=hi){ std::size_t bk=x.bucket(key); EXPECTM(bk<x.bucket_count(),"C05","bucket out of range");
      int seen=0,lim=0; for(auto it=x.begin(bk);it!=x.end(bk);++it){ if(++lim>n) break; if((*it).k[F]==key) ++seen; }
      EXPECTM(seen==hi-lo,"C05","bucket does not hold the elements of its key"); }
  }
  std::size_t tot=0; std::set<const El*> sn;
  for(std::size_t b=0;b<x.bucket_count();++b){ std::size_t c=0;
    for(auto it=x.begin(b);it!=x.end(b);++it){ if(++c>(std::size_t)n) break; EXPECTM(x.bucket((*it).k[F])==b,"C05","element in a bucket its hash does not select"); sn.insert(&*it); }
    EXPECTM(x.bucket_size(b)==c,"C05","bucket_size"); tot+=c; }
  EXPECTM(tot==(std::size_t)n&&(int)sn.size()==n,"C05","buckets do not partition the elements");
  if(o.afterInsert) EXPECTM(n<=(double)x.max_load_factor()*x.bucket_count()+1e-3,"C06","load factor above the maximum after an insertion");
  EXPECTM(n==0||std::fabs(x.load_factor()-(float)n/x.bucket_count())<1e-4,"C06","load_factor");
}
template<int I> void val1(C& c,M& m,const VOpt& o){
  auto& ix=c.template get<I>(); const auto& x=ix; const int n=(int)m.v.size();
  EXPECTM((int)x.size()==n,"C01","size differs from the number of elements"); EXPECTM(x.empty()==(n==0),"C01","empty");
  std::vector<int> seq; std::vector<const El*> ps;
  for(auto it=x.begin();it!=x.end();++it){
    EXPECTM((int)seq.size()<n,"C01","traversal visits more elements than the container holds");
    const El& e=*it; EXPECTM(Live::s().count(&e)==1,"C14,C01","traversal visits a dead element"); e.chk();
    auto a=m.addr.find(e.id); EXPECTM(a!=m.addr.end(),"C01","index holds an element the container should not hold");
    EXPECTM(a->second==&e,"C12","element changed its address");
    EXPECTM(!std::memcmp(e.k,m.v[e.id].k,sizeof e.k),"C01","element value differs");
    seq.push_back(e.id); ps.push_back(&e);
    auto j=c.template project<I>(c.template get<0>().iterator_to(e)); EXPECTM(j==it,"C12","project denotes another element");
    EXPECTM(&*c.template project<0>(it)==&e,"C12","project to index 0"); EXPECTM(x.iterator_to(e)==it,"C12","iterator_to"); }
  EXPECTM((int)seq.size()==n,"C01","index does not hold every element of the container");
  { auto s=seq; std::sort(s.begin(),s.end()); EXPECTM(std::unique(s.begin(),s.end())==s.end(),"C01","element visited twice"); }
  if(c.template project<I>(c.template get<0>().end())!=x.end()) EXPECTM(false,"C12","project of the end position");
  auto& mo=m.ord[I];
  if(!isHash(KINDS[I])){
    if(isOrd(KINDS[I])&&!o.moved.empty()){ auto a=seq,b=mo;
      auto drop=[&](std::vector<int>& q){ q.erase(std::remove_if(q.begin(),q.end(),[&](int i){return o.moved.count(i);}),q.end()); };
      drop(a); drop(b); EXPECTM(a==b,ordtag<I>(),"other elements changed their relative order"); }
    else EXPECTM(seq==mo,ordtag<I>(),"traversal order differs from the specified one");
    if constexpr(!isHash(KINDS[I])){ std::vector<int> r; for(auto it=x.rbegin();it!=x.rend()&&(int)r.size()<=n;++it) r.push_back((*it).id);
      std::reverse(r.begin(),r.end()); EXPECTM(r==seq,ordtag<I>(),"backward traversal is not the reverse of the forward one"); }
  }
  mo=seq;
  if constexpr(isOrd(KINDS[I])){ if(o.lookups) val_ordered<I>(x,m,seq); }
  if constexpr(isHash(KINDS[I])){ if(o.lookups) val_hashed<I>(x,m,seq,o); }
  if constexpr(KINDS[I]==RA){
    for(int i=0;i<n;++i){ EXPECTM(&x[i]==ps[i]&&&x.at(i)==ps[i],"C08","operator[]"); EXPECTM(&*(x.begin()+i)==ps[i],"C08","begin()+i");
      auto it=x.iterator_to(*ps[i]); EXPECTM(it-x.begin()==i&&x.end()-it==n-i,"C08","iterator distance"); EXPECTM(&*(x.end()-(n-i))==ps[i],"C08","end()-i");
      for(int j=0;j<n;++j){ auto jt=x.begin()+j; EXPECTM((it<jt)==(i<j)&&(it<=jt)==(i<=j)&&(it==jt)==(i==j)&&jt-it==j-i,"C08","iterator order"); } 
      auto h=x.begin(); h+=i; EXPECTM(h==it,"C08","+="); h-=i; EXPECTM(h==x.begin(),"C08","-="); EXPECTM(&x.begin()[i]==ps[i],"C08","iterator[]"); }
    bool th=false; try{ (void)x.at(n); }catch(std::out_of_range&){ th=true; } EXPECTM(th,"C08","at out of range does not throw");
    EXPECTM(x.capacity()>=x.size(),"C08","capacity below size");
    if(n) EXPECTM(&x.front()==ps[0]&&&x.back()==ps[n-1],"C08","front/back");
  }
  if constexpr(KINDS[I]==SQ) if(n) EXPECTM(&x.front()==ps[0]&&&x.back()==ps[n-1],"C07","front/back");
}
extern int g_idx;
template<int... Is> void valall(C& c,M& m,const VOpt& o,std::integer_sequence<int,Is...>){ ((g_idx=Is,val1<Is>(c,m,o)),...); g_idx=-1; }
inline void validate(C& c,M& m,const VOpt& o=VOpt()){ Disarm d; valall(c,m,o,std::make_integer_sequence<int,NI>()); }
// the container may have taken part of an operation: accept what index 0 shows, as long as it is a
// consistent container whose elements come from the allowed ones
template<int... Is> void adoptord(C& c,M& m,std::integer_sequence<int,Is...>){
  ((m.ord[Is].clear(),[&]{ std::size_t n=0; for(auto& e:c.template get<Is>()){ if(++n>m.v.size()) break; m.ord[Is].push_back(e.id); } }()),...); }
inline void adopt(C& c,M& m){ Disarm d; m.v.clear(); m.addr.clear(); std::size_t n=0;
  for(auto& e:c.get<0>()){ EXPECTM(++n<=c.size(),"C01","traversal visits more elements than the container holds"); e.chk(); Val x; std::memcpy(x.k,e.k,sizeof x.k); m.v[e.id]=x; m.addr[e.id]=&e; }
  adoptord(c,m,std::make_integer_sequence<int,NI>()); }
