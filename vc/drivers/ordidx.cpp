/* ordered index functions on a real container; key extraction, comparison and range predicates are opaque */
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
using namespace boost::multi_index;
struct V{int v;};
struct X{int v;};  /* a compatible key */
extern "C" { int kf(const V*); bool cmp(int a,int b); bool cmp_kx(int k,const X* x); bool cmp_xk(const X* x,int k); bool lowerp(int k); bool upperp(int k); }
struct KX{ typedef int result_type; int operator()(const V& v)const{return kf(&v);} };
struct CMP{ bool operator()(int a,int b)const{return cmp(a,b);} };
struct CC{ bool operator()(int a,const X& x)const{return cmp_kx(a,&x);} bool operator()(const X& x,int a)const{return cmp_xk(&x,a);} };
struct LO{ bool operator()(int k)const{return lowerp(k);} };
struct UP{ bool operator()(int k)const{return upperp(k);} };
#if defined(RANKED)&&defined(UNIQUE)
typedef ranked_unique<KX,CMP> IS;
#elif defined(RANKED)
typedef ranked_non_unique<KX,CMP> IS;
#elif defined(UNIQUE)
typedef ordered_unique<KX,CMP> IS;
#else
typedef ordered_non_unique<KX,CMP> IS;
#endif
#ifdef UNIQUE
typedef detail::ordered_unique_tag TAG;
#else
typedef detail::ordered_non_unique_tag TAG;
#endif
typedef multi_index_container<V,indexed_by<IS> > C;
typedef nth_index<C,0>::type IX;
typedef IX::index_node_type N; typedef IX::node_impl_type I; typedef I* P;
typedef std::pair<IX::iterator,IX::iterator> PR;
extern "C" {
P p_left(P x){return x->left();}
P p_right(P x){return x->right();}
P p_parent(P x){return x->parent();}
int p_color(P x){return x->color();}
P p_header(const IX* i){return i->header()->impl();}
std::size_t p_count(const IX* i){return i->size();}
const V* p_value(N* n){return &n->value();}
P p_impl(N* n){return n->impl();}
N* f_find(const IX* i,const X* x){return i->find(*x,CC()).get_node();}
N* f_lower_bound(const IX* i,const X* x){return i->lower_bound(*x,CC()).get_node();}
N* f_upper_bound(const IX* i,const X* x){return i->upper_bound(*x,CC()).get_node();}
void f_equal_range(const IX* i,const X* x,N** a,N** b){PR p=i->equal_range(*x,CC());*a=p.first.get_node();*b=p.second.get_node();}
N* f_find_k(const IX* i,int k){return i->find(k).get_node();}
N* f_lower_bound_k(const IX* i,int k){return i->lower_bound(k).get_node();}
N* f_upper_bound_k(const IX* i,int k){return i->upper_bound(k).get_node();}
void f_equal_range_k(const IX* i,int k,N** a,N** b){PR p=i->equal_range(k);*a=p.first.get_node();*b=p.second.get_node();}
void f_range(const IX* i,N** a,N** b){PR p=i->range(LO(),UP());*a=p.first.get_node();*b=p.second.get_node();}
void f_range_lu(const IX* i,N** a,N** b){PR p=i->range(unbounded,UP());*a=p.first.get_node();*b=p.second.get_node();}
void f_range_uu(const IX* i,N** a,N** b){PR p=i->range(LO(),unbounded);*a=p.first.get_node();*b=p.second.get_node();}
void f_range_bu(const IX* i,N** a,N** b){PR p=i->range(unbounded,unbounded);*a=p.first.get_node();*b=p.second.get_node();}
bool f_contains(const IX* i,const X* x){return i->contains(*x,CC());}
N* f_begin(const IX* i){return i->begin().get_node();}
N* f_end(const IX* i){return i->end().get_node();}
bool f_link_point(IX* i,int k,P* pos,int* side){IX::link_info f;bool r=i->link_point(k,f,TAG());*pos=f.pos;*side=f.side;return r;}
bool f_hinted_link_point(IX* i,int k,N* h,P* pos,int* side){IX::link_info f;bool r=i->hinted_link_point(k,h,f,TAG());*pos=f.pos;*side=f.side;return r;}
bool f_in_place(const IX* i,const V* v,N* x){return i->in_place(*v,x,TAG());}
std::size_t f_count(const IX* i,const X* x){return i->count(*x,CC());}
std::size_t f_count_k(const IX* i,int k){return i->count(k);}
#ifdef RANKED
std::size_t p_size(P x){return x->size;}
typedef std::size_t Z; typedef std::pair<Z,Z> PZ;
N* f_nth(const IX* i,Z n){return i->nth(n).get_node();}
Z f_rank(const IX* i,N* n){return i->rank(i->make_iterator(n));}
Z f_find_rank(const IX* i,const X* x){return i->find_rank(*x,CC());}
Z f_find_rank_k(const IX* i,int k){return i->find_rank(k);}
Z f_lower_bound_rank(const IX* i,const X* x){return i->lower_bound_rank(*x,CC());}
Z f_lower_bound_rank_k(const IX* i,int k){return i->lower_bound_rank(k);}
Z f_upper_bound_rank(const IX* i,const X* x){return i->upper_bound_rank(*x,CC());}
Z f_upper_bound_rank_k(const IX* i,int k){return i->upper_bound_rank(k);}
void f_equal_range_rank(const IX* i,const X* x,Z* a,Z* b){PZ p=i->equal_range_rank(*x,CC());*a=p.first;*b=p.second;}
void f_equal_range_rank_k(const IX* i,int k,Z* a,Z* b){PZ p=i->equal_range_rank(k);*a=p.first;*b=p.second;}
void f_range_rank(const IX* i,Z* a,Z* b){PZ p=i->range_rank(LO(),UP());*a=p.first;*b=p.second;}
void f_range_rank_lu(const IX* i,Z* a,Z* b){PZ p=i->range_rank(unbounded,UP());*a=p.first;*b=p.second;}
void f_range_rank_uu(const IX* i,Z* a,Z* b){PZ p=i->range_rank(LO(),unbounded);*a=p.first;*b=p.second;}
void f_range_rank_bu(const IX* i,Z* a,Z* b){PZ p=i->range_rank(unbounded,unbounded);*a=p.first;*b=p.second;}
#endif
#ifndef UNIQUE
bool f_lower_link_point(IX* i,int k,P* pos,int* side){IX::link_info f;bool r=i->lower_link_point(k,f,TAG());*pos=f.pos;*side=f.side;return r;}
#endif
}
