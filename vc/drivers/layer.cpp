/* the layer functions of every kind of index, instantiated on a real container.
   -DKIND=0..7: ordered_unique ordered_non_unique ranked_unique ranked_non_unique hashed_unique hashed_non_unique sequenced random_access */
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
using namespace boost::multi_index; using namespace boost::multi_index::detail;
struct V; struct W;
extern "C" { int kf(const V*); bool cmp(int a,int b); std::size_t hf(int); bool eqf(int,int);
  void v_copy(V*,const V*); void v_move(V*,V*); void v_assign(V*,const V*); void v_massign(V*,V*); void v_dtor(V*)noexcept; void v_conv(V*,const W*);
  void* al_alloc(std::size_t n,std::size_t sz); void al_dealloc(void*,std::size_t n,std::size_t sz)noexcept; void mod_(V*); void back_(V*); }
struct W{int w;};
struct V{ int v; V(const V& x){v_copy(this,&x);} V(V&& x){v_move(this,&x);} explicit V(const W& w){v_conv(this,&w);}
  V& operator=(const V& x){v_assign(this,&x);return *this;} V& operator=(V&& x){v_massign(this,&x);return *this;} ~V(){v_dtor(this);} };
struct KX{ typedef int result_type; int operator()(const V& v)const{return kf(&v);} };
struct CMP{ bool operator()(int a,int b)const{return cmp(a,b);} };
struct HF{ std::size_t operator()(int k)const{return hf(k);} };
struct EQ{ bool operator()(int a,int b)const{return eqf(a,b);} };
struct MOD{ void operator()(V& v){mod_(&v);} }; struct BACK{ void operator()(V& v){back_(&v);} };
template<class T> struct AL{ typedef T value_type; AL(){} template<class U> AL(const AL<U>&){} T* allocate(std::size_t n){return static_cast<T*>(al_alloc(n,sizeof(T)));} void deallocate(T* p,std::size_t n){al_dealloc(p,n,sizeof(T));} };
template<class T,class U> bool operator==(const AL<T>&,const AL<U>&){return true;}
template<class T,class U> bool operator!=(const AL<T>&,const AL<U>&){return false;}
#if KIND==0
typedef ordered_unique<KX,CMP> IS;
#elif KIND==1
typedef ordered_non_unique<KX,CMP> IS;
#elif KIND==2
typedef ranked_unique<KX,CMP> IS;
#elif KIND==3
typedef ranked_non_unique<KX,CMP> IS;
#elif KIND==4
typedef hashed_unique<KX,HF,EQ> IS;
#elif KIND==5
typedef hashed_non_unique<KX,HF,EQ> IS;
#elif KIND==6
typedef sequenced<> IS;
#elif KIND==7
typedef random_access<> IS;
#endif
typedef multi_index_container<V,indexed_by<IS,sequenced<> >,AL<V> > C;
typedef nth_index<C,0>::type IX;
typedef IX::index_node_type N; typedef C::final_node_type FN;
extern "C" {
void* p_impl(N* n){return n->impl();}
std::size_t p_count(const C* c){return c->node_count;}
const V* p_value(N* n){return &n->value();}
C* p_final(IX* i){return &i->final();}
#if KIND<4
int q_side(IX::link_info* f){return f->side;} void* q_pos(IX::link_info* f){return f->pos;}
#elif KIND==4
void* q_pos(IX::link_info* f){return *f;}
#elif KIND==5
void* q_pos(IX::link_info* f){return f->first;} void* q_last(IX::link_info* f){return f->last;}
#endif
#if KIND<4
void* a_left(IX* i){return &i->header()->left();} void* a_right(IX* i){return &i->header()->right();} void* a_root(IX* i){auto r=i->header()->parent();return *(void**)&r;}
void* h_left(IX* i){return i->header()->left();} void* h_right(IX* i){return i->header()->right();} void* h_root(IX* i){return i->header()->parent();} int h_color(IX* i){return i->header()->color();}
#elif KIND==6
void* h_next(IX* i){return i->header()->next();} void* h_prior(IX* i){return i->header()->prior();}
#endif
void* p_header(IX* i){return i->header();}
#if KIND==7
void* p_ptrs(IX* i){return &i->ptrs;}
#endif
FN* f_insert(IX* i,const V* v,FN** x){return i->insert_(*v,*x,lvalue_tag());}
FN* f_insert_rv(IX* i,const V* v,FN** x){return i->insert_(*v,*x,rvalue_tag());}
FN* f_insert_emp(IX* i,const V* v,FN** x){return i->insert_(*v,*x,emplaced_tag());}
FN* f_insert_hint(IX* i,const V* v,N* p,FN** x){return i->insert_(*v,p,*x,lvalue_tag());}
FN* f_insert_hint_emp(IX* i,const V* v,N* p,FN** x){return i->insert_(*v,p,*x,emplaced_tag());}
FN* f_transfer(IX* i,const V* v,FN** x,C* p){return i->insert_(*v,*x,p);}
void f_extract(IX* i,N* x){i->extract_(x,invalidate_iterators());}
bool f_replace(IX* i,const V* v,N* x){return i->replace_(*v,x,lvalue_tag());}
bool f_replace_rv(IX* i,const V* v,N* x){return i->replace_(*v,x,rvalue_tag());}
bool f_modify(IX* i,N* x){return i->modify_(x);}
bool f_modify_rollback(IX* i,N* x){return i->modify_rollback_(x);}
bool f_check_rollback(const IX* i,N* x){return i->check_rollback_(x);}
void f_clear(IX* i){i->clear_();}
}
