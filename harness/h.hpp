// Bounded stand-in and counterexample search for the contract checks: executes the real containers on
// generated histories and compares every observable result with the contract (an abstract model).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <utility>
#include <iterator>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
namespace mi=boost::multi_index;

// ---------------------------------------------------------------- reporting
struct HFail{};
extern std::string g_hist, g_optags, g_scn;
extern long g_checks, g_fails, g_ops, g_cases, g_thrown;
void report(const char* tags,const char* what,const char* file,int line);
#define EXPECT(c,tags) do{ ++g_checks; if(!(c)) report(tags,#c,__FILE__,__LINE__); }while(0)
#define EXPECTM(c,tags,msg) do{ ++g_checks; if(!(c)) report(tags,msg,__FILE__,__LINE__); }while(0)
inline void hist(const char* f,...){ char b[300]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_hist+=b; g_hist+="; "; }
struct Rng{ uint64_t s; explicit Rng(uint64_t x):s(x*0x9E3779B97F4A7C15ull+0x1234567){ for(int i=0;i<4;++i) next(); }
  uint64_t next(){ s^=s<<13; s^=s>>7; s^=s<<17; return s*0x2545F4914F6CDD1Dull>>11; }
  int operator()(int n){ return n<=0?0:(int)(next()%(uint64_t)n); } };

// ---------------------------------------------------------------- throwing user operations
enum{K_COPY=1,K_CMP=2,K_HASH=4,K_EQ=8,K_KEY=16,K_ALLOC=32,K_USER=64,K_ALL=127};
struct Boom{ int tick; };
struct Thr{ static bool on; static unsigned mask; static long n,at,ncmp; };
inline void tick(unsigned k){ if(Thr::on&&(Thr::mask&k)){ if(++Thr::n==Thr::at){ ++g_thrown; throw Boom{(int)k}; } } }
struct Arm{ Arm(){Thr::on=true;} ~Arm(){Thr::on=false;} };
struct Disarm{ bool b; Disarm():b(Thr::on){Thr::on=false;} ~Disarm(){Thr::on=b;} };

// ---------------------------------------------------------------- elements
struct El;
struct Live{ static std::unordered_set<const void*>& s(); };
struct El{
  int id; int k[3]; unsigned magic;
  El(int i,int a,int b,int c):id(i){ k[0]=a;k[1]=b;k[2]=c; tick(K_COPY); reg(); }
  El(const El& x):id(x.id){ x.chk(); std::memcpy(k,x.k,sizeof k); tick(K_COPY); reg(); }
  El(El&& x):id(x.id){ x.chk(); std::memcpy(k,x.k,sizeof k); tick(K_COPY); reg(); x.id=-1; }
  El& operator=(const El& x){ chk(); x.chk(); tick(K_COPY); id=x.id; std::memcpy(k,x.k,sizeof k); return *this; }
  El& operator=(El&& x){ chk(); x.chk(); tick(K_COPY); id=x.id; std::memcpy(k,x.k,sizeof k); if(&x!=this) x.id=-1; return *this; }
  ~El(){ EXPECTM(Live::s().erase(this)==1&&magic==0xA11FEu,"C14","element destroyed that is not alive (double destruction)"); magic=0xDEAD; }
  void reg(){ EXPECTM(Live::s().insert(this).second,"C14","element constructed over a live element"); magic=0xA11FEu; }
  void chk()const{ EXPECTM(magic==0xA11FEu,"C14","dead element read"); }
};
inline bool operator==(const El& a,const El& b){ return a.id==b.id&&a.k[0]==b.k[0]&&a.k[1]==b.k[1]&&a.k[2]==b.k[2]; }
inline bool operator<(const El& a,const El& b){ return a.id<b.id; }
template<int F> struct Key{ typedef int result_type;
  const int& operator()(const El& e)const{ tick(K_KEY); e.chk(); return e.k[F]; }
  int& operator()(El& e)const{ tick(K_KEY); e.chk(); return e.k[F]; } };
struct Cmp{ bool operator()(int a,int b)const{ tick(K_CMP); ++Thr::ncmp; return a<b; } };
struct CmpG{ bool operator()(int a,int b)const{ tick(K_CMP); ++Thr::ncmp; return a>b; } };
struct Wide{ int v; };   // compatible key: groups of two adjacent values
struct CmpW{ bool operator()(int a,Wide b)const{ return (a>>1)<b.v; } bool operator()(Wide a,int b)const{ return a.v<(b>>1); } };
struct CmpWG{ bool operator()(int a,Wide b)const{ return (a>>1)>b.v; } bool operator()(Wide a,int b)const{ return a.v>(b>>1); } };
extern int g_hm; // hash quality: 0 good, m>0: only m distinct hashes
struct Hash{ std::size_t operator()(int x)const{ tick(K_HASH); return g_hm?(std::size_t)((x+1000)%g_hm):(std::size_t)x*2654435761u; } };
struct Eq{ bool operator()(int a,int b)const{ tick(K_EQ); return a==b; } };

// ---------------------------------------------------------------- allocator
struct AR{ std::size_t bytes; int id; std::size_t n; };
struct Mem{ static std::unordered_map<void*,AR>& m(); static long nodes(); };
template<class T> struct TA{
  typedef T value_type; int id;
  TA(int i=0):id(i){} template<class U> TA(const TA<U>& x):id(x.id){}
  T* allocate(std::size_t n){ tick(K_ALLOC); T* p=static_cast<T*>(::operator new(n*sizeof(T)+(n==0))); Mem::m()[p]=AR{n*sizeof(T),id,n}; return p; }
  void deallocate(T* p,std::size_t n){ auto it=Mem::m().find(p);
    EXPECTM(it!=Mem::m().end(),"C14","deallocation of storage that is not allocated");
    EXPECTM(it->second.bytes==n*sizeof(T),"C14","deallocation with a size other than the allocated one");
    EXPECTM(it->second.id==id,"C14,C15","deallocation through an allocator that did not allocate the storage");
    Mem::m().erase(it); ::operator delete(p); }
  template<class U> bool operator==(const TA<U>& x)const{return id==x.id;}
  template<class U> bool operator!=(const TA<U>& x)const{return id!=x.id;}
};

// ---------------------------------------------------------------- configurations
enum Kind{OU,ON,RU,RN,HU,HN,SQ,RA};
constexpr bool isOrd(int k){return k<=RN;} constexpr bool isRnk(int k){return k==RU||k==RN;}
constexpr bool isHash(int k){return k==HU||k==HN;} constexpr bool isList(int k){return k==SQ||k==RA;}
constexpr bool isUniq(int k){return k==OU||k==RU||k==HU;}
#ifndef CFG
#define CFG 0
#endif
using namespace boost::multi_index;
#define IX_OU(F,C) ordered_unique<Key<F>,C>
#define IX_ON(F,C) ordered_non_unique<Key<F>,C>
#define IX_RU(F,C) ranked_unique<Key<F>,C>
#define IX_RN(F,C) ranked_non_unique<Key<F>,C>
#define IX_HU(F) hashed_unique<Key<F>,Hash,Eq>
#define IX_HN(F) hashed_non_unique<Key<F>,Hash,Eq>
#if CFG==0
typedef indexed_by<sequenced<>,IX_OU(0,Cmp),IX_HN(2),random_access<>,IX_HU(1),IX_ON(2,Cmp),IX_RN(1,CmpG)> Idx;
constexpr int KINDS[]={SQ,OU,HN,RA,HU,ON,RN}, KEYF[]={-1,0,2,-1,1,2,1}, GREATER[]={0,0,0,0,0,0,1};
#elif CFG==1
typedef indexed_by<IX_HU(0),IX_ON(1,CmpG),IX_RU(2,Cmp),sequenced<>,IX_HN(1),random_access<> > Idx;
constexpr int KINDS[]={HU,ON,RU,SQ,HN,RA}, KEYF[]={0,1,2,-1,1,-1}, GREATER[]={0,1,0,0,0,0};
#elif CFG==2
typedef indexed_by<IX_ON(0,CmpG),IX_RN(1,Cmp),IX_HN(0),random_access<>,sequenced<> > Idx;
constexpr int KINDS[]={ON,RN,HN,RA,SQ}, KEYF[]={0,1,0,-1,-1}, GREATER[]={1,0,0,0,0};
#elif CFG==3
typedef indexed_by<IX_OU(0,Cmp),IX_HU(1),IX_OU(2,Cmp),sequenced<> > Idx;
constexpr int KINDS[]={OU,HU,OU,SQ}, KEYF[]={0,1,2,-1}, GREATER[]={0,0,0,0};
#elif CFG==4
typedef indexed_by<random_access<>,IX_HN(0),IX_RU(1,Cmp),IX_HU(2)> Idx;
constexpr int KINDS[]={RA,HN,RU,HU}, KEYF[]={-1,0,1,2}, GREATER[]={0,0,0,0};
#elif CFG==5
typedef indexed_by<sequenced<> > Idx;
constexpr int KINDS[]={SQ}, KEYF[]={-1}, GREATER[]={0};
#elif CFG==6
typedef indexed_by<random_access<> > Idx;
constexpr int KINDS[]={RA}, KEYF[]={-1}, GREATER[]={0};
#elif CFG==7
typedef indexed_by<IX_ON(0,Cmp)> Idx;
constexpr int KINDS[]={ON}, KEYF[]={0}, GREATER[]={0};
#elif CFG==8
typedef indexed_by<IX_OU(0,Cmp)> Idx;
constexpr int KINDS[]={OU}, KEYF[]={0}, GREATER[]={0};
#elif CFG==9
typedef indexed_by<IX_RN(0,Cmp)> Idx;
constexpr int KINDS[]={RN}, KEYF[]={0}, GREATER[]={0};
#elif CFG==10
typedef indexed_by<IX_RU(0,Cmp)> Idx;
constexpr int KINDS[]={RU}, KEYF[]={0}, GREATER[]={0};
#elif CFG==11
typedef indexed_by<IX_HU(0)> Idx;
constexpr int KINDS[]={HU}, KEYF[]={0}, GREATER[]={0};
#elif CFG==12
typedef indexed_by<IX_HN(0)> Idx;
constexpr int KINDS[]={HN}, KEYF[]={0}, GREATER[]={0};
#elif CFG==13
typedef indexed_by<IX_HN(0),random_access<>,IX_ON(1,Cmp),IX_HU(2),sequenced<> > Idx;
constexpr int KINDS[]={HN,RA,ON,HU,SQ}, KEYF[]={0,-1,1,2,-1}, GREATER[]={0,0,0,0,0};
#elif CFG==14
typedef indexed_by<IX_RN(0,Cmp),IX_OU(1,Cmp),random_access<>,IX_HN(0)> Idx;
constexpr int KINDS[]={RN,OU,RA,HN}, KEYF[]={0,1,-1,0}, GREATER[]={0,0,0,0};
#endif
constexpr int NI=sizeof(KINDS)/sizeof(int);
typedef multi_index_container<El,Idx,TA<El> > C;
#ifndef KR
#define KR 7           // keys are drawn from 0..KR-1
#endif
constexpr bool hasUnique(){ for(int i=0;i<NI;++i) if(isUniq(KINDS[i])) return true; return false; }

// ---------------------------------------------------------------- abstract model
struct Val{ int k[3]; };
struct M{
  std::map<int,Val> v;                       // id -> value
  std::map<int,const El*> addr;              // id -> address
  std::vector<int> ord[NI];                  // traversal order of each index
  static bool before(int i,const Val& a,const Val& b){ int x=a.k[KEYF[i]],y=b.k[KEYF[i]]; return GREATER[i]?x>y:x<y; }
  std::set<int> blockers(const Val& x,int except=-1)const{ std::set<int> s;
    for(int i=0;i<NI;++i) if(isUniq(KINDS[i])) for(auto& e:v) if(e.first!=except&&e.second.k[KEYF[i]]==x.k[KEYF[i]]) s.insert(e.first);
    return s; }
  void add(int id,const Val& x,const El* p,int idx=-1,int pos=-1){
    v[id]=x; addr[id]=p;
    for(int i=0;i<NI;++i){ auto& o=ord[i];
      if(i==idx&&pos>=0&&isList(KINDS[i])){ o.insert(o.begin()+pos,id); continue; }
      if(isOrd(KINDS[i])){ auto q=o.begin(); while(q!=o.end()&&!before(i,x,v[*q])) ++q; o.insert(q,id); }
      else o.push_back(id); } }
  void del(int id){ v.erase(id); addr.erase(id); for(int i=0;i<NI;++i) ord[i].erase(std::find(ord[i].begin(),ord[i].end(),id)); }
  void clear(){ v.clear(); addr.clear(); for(auto& o:ord) o.clear(); }
  void swap(M& x){ v.swap(x.v); addr.swap(x.addr); for(int i=0;i<NI;++i) ord[i].swap(x.ord[i]); }
};
