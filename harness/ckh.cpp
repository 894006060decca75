// composite keys against a lexicographic reference, on real ints and strings.  usage: exe ck FIRSTSEED COUNT [maxfails]
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/preprocessor/repetition/enum.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>
#include <tuple>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#ifndef CKN
#define CKN 3
#endif
using namespace boost::multi_index;
struct S{ int v[10]; };
template<int I> struct KX{ typedef int result_type; int operator()(const S& s)const{return s.v[I];} };
template<int I> struct L{ bool operator()(int a,int b)const{ return I%2?a>b:a<b; } };       // alternately < and >
template<int I> struct Q{ bool operator()(int a,int b)const{ return a%100==b%100; } };       // equivalence coarser than ==
template<int I> struct Hf{ std::size_t operator()(int a)const{ return (std::size_t)(a%100)*(2*I+3)+I; } };
#define A(z,n,T) T<n>
#define VAL(z,n,x) x.v[n]
typedef composite_key<S,BOOST_PP_ENUM(CKN,A,KX)> CK;
typedef composite_key_compare<BOOST_PP_ENUM(CKN,A,L)> CMP;
typedef composite_key_equal_to<BOOST_PP_ENUM(CKN,A,Q)> EQ;
typedef composite_key_hash<BOOST_PP_ENUM(CKN,A,Hf)> HS;
static long checks,fails; static uint64_t seed; static std::string cur;
static void bad(const char* w,int l){ ++fails; std::printf("FAIL tags=C16 cfg=%d mode=ck seed=%llu at=ckh.cpp:%d what=%s\nHISTORY %s\n",CKN,(unsigned long long)seed,l,w,cur.c_str()); }
#define EX(c,w) do{ ++checks; if(!(c)) bad(w,__LINE__); }while(0)
static bool lex(const S& x,const S& y,int n){ for(int i=0;i<n;++i){ bool a=i%2?x.v[i]>y.v[i]:x.v[i]<y.v[i],b=i%2?y.v[i]>x.v[i]:y.v[i]<x.v[i]; if(a) return true; if(b) return false; } return false; }
static bool lex0(const S& x,const S& y,int n){ for(int i=0;i<n;++i){ if(x.v[i]<y.v[i]) return true; if(y.v[i]<x.v[i]) return false; } return false; }
static bool eqv(const S& x,const S& y,int n){ for(int i=0;i<n;++i) if(x.v[i]%100!=y.v[i]%100) return false; return true; }
static bool eq0(const S& x,const S& y,int n){ for(int i=0;i<n;++i) if(x.v[i]!=y.v[i]) return false; return true; }
template<int M> struct Pre{ static void run(const S& x,const S& y){ CK k; CMP c; auto t=tup(y,std::make_integer_sequence<int,M>()); 
    auto b=btup(y,std::make_integer_sequence<int,M>());
    EX(c(k(x),t)==lex(x,y,M),"compare(key,std prefix)"); EX(c(t,k(x))==lex(y,x,M),"compare(std prefix,key)");
    EX(c(k(x),b)==lex(x,y,M),"compare(key,prefix)"); EX(c(b,k(x))==lex(y,x,M),"compare(prefix,key)"); 
    EX((k(x)<t)==lex0(x,y,M),"key<std prefix"); EX((b<k(x))==lex0(y,x,M),"prefix<key"); Pre<M-1>::run(x,y); }
  template<int... I> static std::tuple<decltype(I)...> tup(const S& s,std::integer_sequence<int,I...>){ return std::tuple<decltype(I)...>(s.v[I]...); }
  template<int... I> static boost::tuple<decltype(I)...> btup(const S& s,std::integer_sequence<int,I...>){ return boost::tuple<decltype(I)...>(s.v[I]...); } };
template<> struct Pre<0>{ static void run(const S&,const S&){} };
typedef multi_index_container<S,indexed_by<ordered_non_unique<CK,CMP>,hashed_non_unique<CK,HS,EQ>,ordered_non_unique<CK> > > MC;
static void one(const S& x,const S& y){
  cur.clear(); for(int i=0;i<CKN;++i) cur+=std::to_string(x.v[i])+","; cur+=" / "; for(int i=0;i<CKN;++i) cur+=std::to_string(y.v[i])+",";
  CK k; CMP c; EQ e; HS h; auto bt=boost::make_tuple(BOOST_PP_ENUM(CKN,VAL,y)); auto st=std::make_tuple(BOOST_PP_ENUM(CKN,VAL,y));
  EX(c(k(x),k(y))==lex(x,y,CKN),"compare(key,key)");
  EX(e(k(x),k(y))==eqv(x,y,CKN),"equal(key,key)"); EX(e(k(x),bt)==eqv(x,y,CKN),"equal(key,tuple)"); EX(e(bt,k(x))==eqv(x,y,CKN),"equal(tuple,key)");
  EX(e(k(x),st)==eqv(x,y,CKN),"equal(key,std::tuple)"); EX(e(st,k(x))==eqv(x,y,CKN),"equal(std::tuple,key)");
  EX(!eqv(x,y,CKN)||h(k(x))==h(k(y)),"equal keys hash differently"); EX(h(k(y))==h(bt),"hash(key)!=hash(tuple)"); EX(h(k(y))==h(st),"hash(key)!=hash(std::tuple)");
  EX((k(x)==k(y))==eq0(x,y,CKN),"key==key"); EX((k(x)==bt)==eq0(x,y,CKN),"key==tuple"); EX((st==k(x))==eq0(x,y,CKN),"std::tuple==key");
  EX((k(x)!=k(y))==!eq0(x,y,CKN),"key!=key");
  EX((k(x)<k(y))==lex0(x,y,CKN),"key<key"); EX((k(x)>k(y))==lex0(y,x,CKN),"key>key"); EX((k(x)<=k(y))==!lex0(y,x,CKN),"key<=key"); EX((k(x)>=k(y))==!lex0(x,y,CKN),"key>=key");
  EX(std::less<composite_key_result<CK> >()(k(x),k(y))==lex0(x,y,CKN),"std::less of keys"); EX(std::greater<composite_key_result<CK> >()(k(x),k(y))==lex0(y,x,CKN),"std::greater of keys");
  EX(std::equal_to<composite_key_result<CK> >()(k(x),k(y))==eq0(x,y,CKN),"std::equal_to of keys"); boost::hash<composite_key_result<CK> > bh; EX(!eq0(x,y,CKN)||bh(k(x))==bh(k(y)),"boost::hash of equal keys"); EX(bh(k(y))==bh(st)&&bh(k(y))==bh(bt),"boost::hash of a key and of its tuple");
  Pre<CKN>::run(x,y); }
static void cont(const std::vector<S>& v){ // containers: prefix queries return the matching elements
  MC m(v.begin(),v.end()); for(auto& q:v){ cur="container of "+std::to_string(v.size());
    std::size_t n=0,f=0,h=0; for(auto& e:v){ n+=e.v[0]==q.v[0]; f+=eq0(e,q,CKN); h+=eqv(e,q,CKN); }
    auto& o=m.get<0>(); auto& p=m.get<2>(); auto r=o.equal_range(q.v[0]); EX((std::size_t)std::distance(r.first,r.second)==n,"equal_range of a prefix");
    EX(o.count(std::make_tuple(q.v[0]))==n,"count of a prefix tuple"); EX(p.count(boost::make_tuple(q.v[0]))==n,"count of a prefix tuple (default compare)");
    EX(p.count(std::make_tuple(BOOST_PP_ENUM(CKN,VAL,q)))==f,"count of a full key"); EX(m.get<1>().count(boost::make_tuple(BOOST_PP_ENUM(CKN,VAL,q)))==h,"hashed count of a tuple"); } }
int main(int argc,char** argv){ uint64_t s0=argc>2?strtoull(argv[2],0,10):1; long cnt=argc>3?atol(argv[3]):10; long cases=0,ops=0;
  if(CKN<=3){ int n=1; for(int i=0;i<2*CKN;++i) n*=3; for(int c=0;c<n;++c){ S x={},y={}; int d=c; for(int i=0;i<CKN;++i){x.v[i]=d%3;d/=3;} for(int i=0;i<CKN;++i){y.v[i]=d%3;d/=3;} one(x,y); ++ops; if(fails>5) break; } ++cases; }
  for(long k=0;k<cnt&&fails<6;++k){ seed=s0+k; uint64_t z=seed*0x9E3779B97F4A7C15ull+1; auto r=[&](int n){ z^=z<<13; z^=z>>7; z^=z<<17; return (int)((z>>11)%n); };
    std::vector<S> v; for(int i=0;i<12;++i){ S x={}; if(i&&r(3)) { x=v[r(i)]; x.v[r(CKN)]=r(3)+100*r(2); } else for(int j=0;j<CKN;++j) x.v[j]=r(3)-1+100*(r(4)==0); v.push_back(x); }
    for(auto& x:v) for(auto& y:v){ one(x,y); ++ops; } cont(v); ++cases; }
  std::printf("DONE cfg=%d mode=ck cases=%ld ops=%ld checks=%ld throws=0 fails=%ld\n",CKN,cases,ops,checks,fails); return fails?1:0; }
