/* the container-level functions, index_base (bottom of every index chain) and node_handle, instantiated on a real container.
   -DPROP=0/1: allocator propagation traits; -DEQ_=0/1 is_always_equal */
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/sequenced_index.hpp>
using namespace boost::multi_index; using namespace boost::multi_index::detail;
struct V; struct W;
extern "C" { void v_copy(V*,const V*); void v_move(V*,V*); void v_assign(V*,const V*); void v_massign(V*,V*); void v_dtor(V*)noexcept; void v_conv(V*,const W*);
  void* al_alloc(int id,std::size_t n,std::size_t sz); void al_dealloc(int id,void*,std::size_t n,std::size_t sz)noexcept; void mod_(V*); void back_(V*); }
struct W{int w;};
struct V{ int v; V(const V& x){v_copy(this,&x);} V(V&& x){v_move(this,&x);} explicit V(const W& w){v_conv(this,&w);}
  V& operator=(const V& x){v_assign(this,&x);return *this;} V& operator=(V&& x){v_massign(this,&x);return *this;} ~V(){v_dtor(this);} };
struct MOD{ void operator()(V& v){mod_(&v);} }; struct BACK{ void operator()(V& v){back_(&v);} };
template<class T> struct AL{ typedef T value_type; int id; explicit AL(int i):id(i){} template<class U> AL(const AL<U>& x):id(x.id){}
  typedef std::integral_constant<bool,PROP> propagate_on_container_move_assignment; typedef std::integral_constant<bool,PROP> propagate_on_container_swap; typedef std::integral_constant<bool,PROP> propagate_on_container_copy_assignment;
  typedef std::false_type is_always_equal;
  T* allocate(std::size_t n){return static_cast<T*>(al_alloc(id,n,sizeof(T)));} void deallocate(T* p,std::size_t n){al_dealloc(id,p,n,sizeof(T));} };
template<class T,class U> bool operator==(const AL<T>& a,const AL<U>& b){return a.id==b.id;}
template<class T,class U> bool operator!=(const AL<T>& a,const AL<U>& b){return a.id!=b.id;}
typedef multi_index_container<V,indexed_by<sequenced<>,sequenced<> >,AL<V> > C;
typedef nth_index<C,0>::type IX; typedef C::final_node_type FN; typedef C::final_node_handle_type NH;
typedef IX::super IX2; typedef IX2::super IB;
extern "C" {
std::size_t p_count(const C* c){return c->node_count;}
const V* p_value(FN* n){return &n->value();}
int p_alid(C* c){return static_cast<C::bfm_allocator*>(c)->member.id;}
FN* p_header(C* c){return static_cast<C::bfm_header*>(c)->member;}
FN* p_nhnode(NH* h){return h->node;} int p_nhid(NH* h){return h->allocator_ptr()->id;}
std::size_t p_nodesize(){return sizeof(FN);}
typedef std::pair<FN*,bool> PR;
#define RET(e) {PR res_=e;*r=res_.first;*b=res_.second;}
void f_insert(C* c,FN** r,bool* b,const V* v) RET(c->insert_(*v))
void f_insert_rv(C* c,FN** r,bool* b,const V* v) RET(c->insert_rv_(*v))
void f_insert_hint(C* c,FN** r,bool* b,const V* v,FN* p) RET(c->insert_(*v,p))
void f_insert_rv_hint(C* c,FN** r,bool* b,const V* v,FN* p) RET(c->insert_rv_(*v,p))
void f_insert_ref(C* c,FN** r,bool* b,const W* v) RET(c->insert_ref_(*v))
void f_insert_ref_hint(C* c,FN** r,bool* b,const W* v,FN* p) RET(c->insert_ref_(*v,p))
void f_emplace(C* c,FN** r,bool* b,const W* v) RET(c->emplace_(*v))
void f_emplace_hint(C* c,FN** r,bool* b,const W* v,FN* p) RET(c->emplace_hint_(p,*v))
void f_insert_nh(C* c,FN** r,bool* b,NH* h) RET(c->insert_nh_(*h))
void f_insert_nh_hint(C* c,FN** r,bool* b,NH* h,FN* p) RET(c->insert_nh_(*h,p))
void f_transfer(C* c,FN** r,bool* b,IX* src,FN* x) RET(c->transfer_(*src,x))
void f_extract(C* c,FN* x,NH* out){ new(out) NH(c->extract_(x)); }
void f_extract_for_transfer(C* c,FN* x){ c->extract_for_transfer_(x,invalidate_iterators()); }
void f_erase(C* c,FN* x){ c->erase_(x); }
void f_delete_node(C* c,FN* x){ c->delete_node_(x); }
void f_clear(C* c){ c->clear_(); }
bool f_replace(C* c,const V* v,FN* x){ return c->replace_(*v,x); }
bool f_replace_rv(C* c,const V* v,FN* x){ return c->replace_rv_(*v,x); }
bool f_modify(C* c,FN* x){ MOD m; return c->modify_(m,x); }
bool f_modify_back(C* c,FN* x){ MOD m; BACK k; return c->modify_(m,k,x); }
FN* g_insert(C* c,const V* v,FN** x){ return static_cast<IB*>(c)->insert_(*v,*x,lvalue_tag()); }
FN* g_insert_rv(C* c,const V* v,FN** x){ return static_cast<IB*>(c)->insert_(*v,*x,rvalue_tag()); }
FN* g_insert_emp(C* c,const V* v,FN** x){ return static_cast<IB*>(c)->insert_(*v,*x,emplaced_tag()); }
FN* g_insert_hint(C* c,const V* v,FN* p,FN** x){ return static_cast<IB*>(c)->insert_(*v,p,*x,lvalue_tag()); }
FN* g_insert_rv_hint(C* c,const V* v,FN* p,FN** x){ return static_cast<IB*>(c)->insert_(*v,p,*x,rvalue_tag()); }
FN* g_insert_hint_emp(C* c,const V* v,FN* p,FN** x){ return static_cast<IB*>(c)->insert_(*v,p,*x,emplaced_tag()); }
FN* g_transfer(C* c,const V* v,FN** x,C* src){ return static_cast<IB*>(c)->insert_(*v,*x,src); }
void g_extract(C* c,FN* x){ static_cast<IB*>(c)->extract_(x,invalidate_iterators()); }
bool g_replace(C* c,const V* v,FN* x){ return static_cast<IB*>(c)->replace_(*v,x,lvalue_tag()); }
bool g_replace_rv(C* c,const V* v,FN* x){ return static_cast<IB*>(c)->replace_(*v,x,rvalue_tag()); }
bool g_modify(C* c,FN* x){ return static_cast<IB*>(c)->modify_(x); }
bool g_modify_rollback(C* c,FN* x){ return static_cast<IB*>(c)->modify_rollback_(x); }
bool g_check_rollback(C* c,FN* x){ return static_cast<IB*>(c)->check_rollback_(x); }
void h_dtor(NH* h){ h->~NH(); }
void h_move(NH* d,NH* s){ new(d) NH(boost::move(*s)); }
void h_assign(NH* d,NH* s){ *d=boost::move(*s); }
void h_swap(NH* d,NH* s){ d->swap(*s); }
void h_default(NH* d){ new(d) NH; }
bool h_empty(NH* d){ return d->empty(); }
bool h_bool(NH* d){ return bool(*d); }
void h_release(NH* d){ d->release_node(); }
std::size_t c_size(const C* c){ return c->size_(); }
bool c_empty(const C* c){ return c->empty_(); }
}
