/* copying, swapping and comparing whole indices; functors and allocators have state, user functions are opaque.
   -DKIND=0..7 as in layer.cpp; -DKIND=8: container level */
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#ifndef PROP
#define PROP 0
#endif
using namespace boost::multi_index; using namespace boost::multi_index::detail;
struct V;
extern "C" { int kf(int,const V*); bool cmp(int,int a,int b); std::size_t hf(int,int); bool eqf(int,int,int); bool veq(const V*,const V*); bool vlt(const V*,const V*); void v_copy(V*,const V*); void v_move(V*,V*); void v_dtor(V*)noexcept;
  void* al_alloc(int,std::size_t n,std::size_t sz); void al_dealloc(int,void*,std::size_t n,std::size_t sz)noexcept; }
struct V{ int v; V(const V& x){v_copy(this,&x);} V(V&& x){v_move(this,&x);} ~V(){v_dtor(this);} };
bool operator==(const V& a,const V& b){return veq(&a,&b);}
bool operator<(const V& a,const V& b){return vlt(&a,&b);}
struct KX{ int s; typedef int result_type; int operator()(const V& v)const{return kf(s,&v);} };
struct CMP{ int s; bool operator()(int a,int b)const{return cmp(s,a,b);} };
struct HF{ int s; std::size_t operator()(int k)const{return hf(s,k);} };
struct EQ{ int s; bool operator()(int a,int b)const{return eqf(s,a,b);} };
template<class T> struct AL{ typedef T value_type; int id;
  typedef std::integral_constant<bool,PROP> propagate_on_container_swap; typedef std::integral_constant<bool,PROP> propagate_on_container_copy_assignment; typedef std::integral_constant<bool,PROP> propagate_on_container_move_assignment;
  AL(int i=0):id(i){} template<class U> AL(const AL<U>& x):id(x.id){} T* allocate(std::size_t n){return static_cast<T*>(al_alloc(id,n,sizeof(T)));} void deallocate(T* p,std::size_t n){al_dealloc(id,p,n,sizeof(T));} };
template<class T,class U> bool operator==(const AL<T>& a,const AL<U>& b){return a.id==b.id;}
template<class T,class U> bool operator!=(const AL<T>& a,const AL<U>& b){return a.id!=b.id;}
#if KIND==0
typedef ordered_unique<KX,CMP> IS;
#elif KIND==1
typedef ordered_non_unique<KX,CMP> IS;
#elif KIND==2
typedef ranked_unique<KX,CMP> IS;
#elif KIND==3
typedef ranked_non_unique<KX,CMP> IS;
#elif KIND==4
typedef hashed_unique<KX,HF,EQ> IS;
#elif KIND==5
typedef hashed_non_unique<KX,HF,EQ> IS;
#elif KIND==6 || KIND==8
typedef sequenced<> IS;
#elif KIND==7
typedef random_access<> IS;
#endif
#if KIND==8
typedef multi_index_container<V,indexed_by<IS>,AL<V> > C;
#else
typedef multi_index_container<V,indexed_by<IS,sequenced<> >,AL<V> > C;
#endif
typedef nth_index<C,0>::type IX;
typedef IX::index_node_type N; typedef C::final_node_type FN; typedef IX::copy_map_type CM; typedef copy_map_entry<FN> CE;
typedef IX::node_impl_type NI; typedef NI* P;
extern "C" {
P p_impl(N* n){return n->impl();}
N* p_node(P x){return N::from_impl(x);}
const V* p_value(N* n){return &n->value();}
N* p_header(const IX* i){return i->header();}
FN* q_header(const C* i){return i->bfm_header::member;}
std::size_t p_count(const IX* i){return i->size();}
const CE* m_data(const CM* m){return m->spc.data();}
std::size_t m_n(const CM* m){return m->n;}
FN* e_first(const CE* e){return e->first;}
FN* e_second(const CE* e){return e->second;}
#if KIND<4
P p_left(P x){return x->left();} P p_right(P x){return x->right();} P p_parent(P x){return x->parent();} int p_color(P x){return x->color();}
int s_key(const IX* i){return i->key.s;} int s_comp(const IX* i){return i->comp_.s;}
#if KIND>=2
std::size_t p_size(P x){return x->size;}
#endif
#elif KIND<6
typedef IX::node_impl_base_pointer BP;
P p_prior(BP x){return x->prior();} BP p_next(P x){return x->next();}
BP p_buckets(const IX* i){return i->buckets.begin();}
int s_key(const IX* i){return i->key.s;} int s_hash(const IX* i){return i->hash_.s;} int s_eq(const IX* i){return i->eq_.s;}
BP s_bdata(const IX* i){return i->buckets.spc.data();} std::size_t s_bn(const IX* i){return i->buckets.spc.n_;} std::size_t s_bsi(const IX* i){return i->buckets.size_index_;}
std::size_t s_maxload(const IX* i){return i->max_load;} int s_mlf(const IX* i){return *(const int*)&i->mlf;} int s_bal(const IX* i){return i->buckets.spc.al_.id;}
#elif KIND==6 || KIND==8
P p_next(P x){return x->next();} P p_prior(P x){return x->prior();}
#elif KIND==7
typedef IX::node_impl_ptr_pointer Q;
Q p_up(P x){return x->up();} Q p_begin(const IX* i){return i->ptrs.begin();} Q p_end(const IX* i){return i->ptrs.end();} P p_cell(Q q){return *q;}
std::size_t s_size(const IX* i){return i->ptrs.size_;} std::size_t s_cap(const IX* i){return i->ptrs.capacity_;} Q s_data(const IX* i){return i->ptrs.spc.data();} std::size_t s_n(const IX* i){return i->ptrs.spc.n_;} int s_al(const IX* i){return i->ptrs.spc.al_.id;}
#endif
void f_copy(IX* i,const IX* x,const CM* m){i->copy_(*x,*m);}
void f_swap_elements(IX* i,IX* x){i->swap_elements_(*x);}
void f_swap_alloc(IX* i,IX* x){i->swap_(*x,boost::true_type());}
void f_swap_noalloc(IX* i,IX* x){i->swap_(*x,boost::false_type());}
bool f_eq(const IX* i,const IX* x){return *i==*x;}
#if KIND<4 || KIND>=6
bool f_lt(const IX* i,const IX* x){return *i<*x;}
bool f_ne(const IX* i,const IX* x){return *i!=*x;}
bool f_gt(const IX* i,const IX* x){return *i>*x;}
bool f_ge(const IX* i,const IX* x){return *i>=*x;}
bool f_le(const IX* i,const IX* x){return *i<=*x;}
#endif
#if KIND==8
int s_calloc(const C* c){return c->bfm_allocator::member.id;} std::size_t s_count(const C* c){return c->node_count;}
void c_swap(C* a,C* b){a->swap_(*b);}
void c_swap_alloc(C* a,C* b){a->swap_(*b,boost::true_type());}
void c_swap_noalloc(C* a,C* b){a->swap_(*b,boost::false_type());}
void c_swap_elements(C* a,C* b){a->swap_elements_(*b);}
#endif
}
