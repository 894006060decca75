// random and systematic histories over one container configuration (-DCFG=n)
#include <cstdarg>
#include "ops.hpp"
#include <csignal>
#include <unistd.h>
std::string g_hist,g_optags,g_scn; long g_checks,g_fails,g_ops,g_cases,g_thrown; int g_hm=0; int g_idx=-1;
bool Thr::on=false; unsigned Thr::mask=0; long Thr::n=0,Thr::at=0,Thr::ncmp=0;
std::unordered_set<const void*>& Live::s(){ static auto* x=new std::unordered_set<const void*>; return *x; }
std::unordered_map<void*,AR>& Mem::m(){ static auto* x=new std::unordered_map<void*,AR>; return *x; }
static std::size_t nodesize=0;
long Mem::nodes(){ long k=0; for(auto& e:m()) if(e.second.n==1&&e.second.bytes==nodesize) ++k; return k; }
static uint64_t g_seed; static std::string g_mode;
static bool g_dying=false;
void report(const char* tags,const char* what,const char* file,int line){
  if(g_dying) return;
  Thr::on=false; ++g_fails;
  std::printf("FAIL tags=%s%s cfg=%d mode=%s seed=%llu at=%s:%d index=%d what=%s\nHISTORY %s\n",tags,g_optags.c_str(),CFG,g_mode.c_str(),(unsigned long long)g_seed,std::strrchr(file,'/')?std::strrchr(file,'/')+1:file,line,g_idx,what,g_hist.c_str()); std::fflush(stdout);
  g_dying=true; throw HFail(); }
static void crash(int s){ char b[200]; int n=snprintf(b,sizeof b,"CRASH signal=%d cfg=%d mode=%s seed=%llu tags=%s\nHISTORY ",s,CFG,g_mode.c_str(),(unsigned long long)g_seed,g_optags.c_str()); if(write(1,b,n)){} if(write(1,g_hist.c_str(),g_hist.size())){} if(write(1,"\n",1)){} _exit(3); }
extern "C" void __asan_on_error(){ crash(-1); }
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0"; }

// operation families: 0-2 insert 3 range 4 erase 5 replace 6 modify 7 node handle 8 transfer 9 list 10 hash 11 whole
struct Mode{ const char* name; unsigned sel; bool exc; int maxn; int steps; int hm; };
static const Mode modes[]={
 {"all",0xFFF,false,9,40,0},{"collide",0xFFF,false,9,40,2},{"exc",0xFFF,true,6,14,0},{"exccollide",0xFFF,true,6,14,3},
 {"insdel",0x01F,false,16,70,0},{"modify",0x077,false,8,50,0},{"excmodify",0x047,true,8,24,0},{"list",0x21F,false,8,50,0},{"hash",0x41F,false,24,60,3},
 {"nh",0x19F,false,8,40,0},{"whole",0x85F,false,8,40,0},{"replace",0x037,false,8,40,1},{"excins",0x02F,true,8,24,0},{"excwhole",0x81F,true,6,20,0},{"exchash",0x41F,true,12,24,2},{"excnh",0x187,true,6,20,0} };
static void one(const Mode& md,uint64_t seed){
  g_seed=seed; g_mode=md.name; g_hist.clear(); g_optags.clear(); g_dying=false; ++g_cases;
  World w(seed); w.exc=md.exc; w.maxn=md.maxn; g_hm=(seed%3==0&&md.hm==0)?1+w.r(4):md.hm; w.kr=2+w.r(KR-1);
  Live::s().clear(); 
  auto before=Mem::m().size();
  w.c=new C(typename C::ctor_args_list(),TA<El>(1)); w.d=new C(typename C::ctor_args_list(),TA<El>(1));
  if(!nodesize){ // size of a node: the allocation an insertion makes
    std::set<void*> a; for(auto& e:Mem::m()) a.insert(e.first); C t(typename C::ctor_args_list(),TA<El>(9)); for(auto& e:Mem::m()) a.insert(e.first); t.get<0>().size();
    op_insert<0>(w); for(auto& e:Mem::m()) if(!a.count(e.first)&&e.second.id==1&&e.second.n==1) nodesize=std::max(nodesize,e.second.bytes); }
  try{
    both(w,true);
    for(int i=0;i<md.steps;++i){
      if(w.r(9)==0){ std::swap(w.c,w.d); w.m.swap(w.md); g_hist+="[the other container] "; }
      unsigned sel=md.sel; int n=(int)w.m.v.size(); if(n>=md.maxn) sel&=~0xFu; if(n>=md.maxn) sel|=0x10; if(n<2) sel|=7;
      dispatch(w,sel,w.r(NI),std::make_integer_sequence<int,NI>());
      g_optags.clear(); }
    hist("destroy both");
    delete w.c; w.c=nullptr; delete w.d; w.d=nullptr;
    EXPECTM(Live::s().empty(),"C14","elements alive after the destruction of their containers");
    EXPECTM(Mem::m().size()==before,"C14","storage not deallocated");
  }catch(HFail&){ Mem::m().clear(); }
  catch(Boom&){ std::printf("FAIL tags=C10%s cfg=%d mode=%s seed=%llu at=- what=unexpected exception\nHISTORY %s\n",g_optags.c_str(),CFG,md.name,(unsigned long long)seed,g_hist.c_str()); ++g_fails; Mem::m().clear(); }
  Live::s().clear();
}
int main(int argc,char** argv){
  for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGALRM}) std::signal(s,crash);
  // hist MODE FIRST COUNT [maxfails]
  std::string m=argc>1?argv[1]:"all"; uint64_t f=argc>2?strtoull(argv[2],0,10):1; long cnt=argc>3?atol(argv[3]):100; long mf=argc>4?atol(argv[4]):12;
  for(auto& md:modes) if(m==md.name) for(long i=0;i<cnt&&g_fails<mf;++i){ alarm(60); one(md,f+i); }
  std::printf("DONE cfg=%d mode=%s cases=%ld ops=%ld checks=%ld throws=%ld fails=%ld\n",CFG,m.c_str(),g_cases,g_ops,g_checks,g_thrown,g_fails);
  return g_fails?1:0; }
