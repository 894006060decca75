/* hashed index functions on a real container; key extraction, hash and equality are opaque */
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
using namespace boost::multi_index;
struct V{int v;};
struct X{int v;};  /* a compatible key */
extern "C" { int kf(const V*); std::size_t hk(int); bool ek(int a,int b); std::size_t hx(const X*); bool ex(const X*,int); }
struct KX{ typedef int result_type; int operator()(const V& v)const{return kf(&v);} };
struct HS{ std::size_t operator()(int a)const{return hk(a);} };
struct EQ{ bool operator()(int a,int b)const{return ek(a,b);} };
struct CH{ std::size_t operator()(const X& x)const{return hx(&x);} };
struct CE{ bool operator()(const X& x,int a)const{return ex(&x,a);} bool operator()(int a,const X& x)const{return ex(&x,a);} };
#ifdef UNIQUE
typedef hashed_unique<KX,HS,EQ> IS; typedef detail::hashed_unique_tag TAG;
#else
typedef hashed_non_unique<KX,HS,EQ> IS; typedef detail::hashed_non_unique_tag TAG;
#endif
typedef multi_index_container<V,indexed_by<IS> > C;
typedef nth_index<C,0>::type IX;
typedef IX::index_node_type N; typedef IX::node_impl_type I; typedef I* P; typedef IX::node_impl_base_pointer B;
typedef std::pair<IX::iterator,IX::iterator> PR;
extern "C" {
P p_prior(B x){return x->prior();}
B p_next(P x){return x->next();}
P p_header(const IX* i){return i->header()->impl();}
const V* p_value(N* n){return &n->value();}
P p_impl(N* n){return n->impl();}
N* f_find(const IX* i,const X* x){return i->find(*x,CH(),CE()).get_node();}
N* f_find_k(const IX* i,int k){return i->find(k).get_node();}
std::size_t f_count(const IX* i,const X* x){return i->count(*x,CH(),CE());}
std::size_t f_count_k(const IX* i,int k){return i->count(k);}
bool f_contains(const IX* i,const X* x){return i->contains(*x,CH(),CE());}
void f_equal_range(const IX* i,const X* x,N** a,N** b){PR p=i->equal_range(*x,CH(),CE());*a=p.first.get_node();*b=p.second.get_node();}
void f_equal_range_k(const IX* i,int k,N** a,N** b){PR p=i->equal_range(k);*a=p.first.get_node();*b=p.second.get_node();}
std::size_t f_bucket(const IX* i,int k){return i->bucket(k);}
std::size_t f_bucket_size(const IX* i,std::size_t n){return i->bucket_size(n);}
N* f_local_begin(const IX* i,std::size_t n){return i->begin(n).get_node();}
N* f_local_end(const IX* i,std::size_t n){return i->end(n).get_node();}
N* f_begin(const IX* i){return i->begin().get_node();}
N* f_end(const IX* i){return i->end().get_node();}
N* f_increment(IX::iterator* i){++*i;return i->get_node();}
N* f_local_increment(IX::local_iterator* i){++*i;return i->get_node();}
P f_last_of_range(const IX* i,P x){return i->last_of_range(x);}
P f_end_of_range(const IX* i,P x){return i->end_of_range(x);}
bool f_in_place(const IX* i,int k,P x,std::size_t buc){return i->in_place(x,k,buc);}
#ifdef UNIQUE
bool f_link_point(IX* i,const V* v,B b,B* r){IX::link_info p=b;bool k=i->link_point(*v,p);*r=p;return k;}
#else
bool f_link_point(IX* i,const V* v,B b,B* r,B* l){IX::link_info p(b);bool k=i->link_point(*v,p);*r=p.first;*l=p.last;return k;}
#endif
typedef IX::bucket_array_type BA;
std::size_t b_size(const BA* b){return b->size();}
std::size_t b_position(const BA* b,std::size_t h){return b->position(h);}
B b_at(const BA* b,std::size_t n){return b->at(n);}
B b_begin(const BA* b){return b->begin();}
B b_end(const BA* b){return b->end();}
void b_clear(BA* b,P e){b->clear(e);}
std::size_t b_pos_raw(std::size_t h,std::size_t i){return BA::super::position(h,i);}
std::size_t b_size_index(std::size_t n){return BA::super::size_index(n);}
}
