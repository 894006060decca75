/* random-access index: node algorithms, pointer array, list operations; user functions are opaque */
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/identity.hpp>
using namespace boost::multi_index;
struct V{int v;};
extern "C" { bool pr(const V*); bool bp(const V*,const V*); bool lt(const V*,const V*); const V* el(long); }
struct PR{ bool operator()(const V& a)const{return pr(&a);} };
struct BP{ bool operator()(const V& a,const V& b)const{return bp(&a,&b);} };
struct LT{ bool operator()(const V& a,const V& b)const{return lt(&a,&b);} };
struct IT{ long i; const V& operator*()const{return *el(i);} IT& operator++(){++i;return *this;} };
typedef multi_index_container<V,indexed_by<random_access<> > > C;
typedef nth_index<C,0>::type IX;
typedef IX::index_node_type N; typedef IX::node_impl_type I; typedef I* P; typedef I::ptr_pointer Q;
typedef IX::ptr_array PA; typedef std::allocator<V> AL;
extern "C" {
Q p_up(P x){return x->up();}
const V* p_value(N* n){return &n->value();}
P p_impl(N* n){return n->impl();}
N* p_node(P x){return N::from_impl(x);}
std::size_t p_size(const PA* a){return a->size_;}
std::size_t p_cap(const PA* a){return a->capacity_;}
std::size_t p_spcn(const PA* a){return a->spc.n_;}
Q p_data(const PA* a){return a->spc.data_;}
const PA* p_ptrs(const IX* i){return &i->ptrs;}
N* p_header(const IX* i){return i->header();}
std::size_t p_count(const IX* i){return i->size();}
/* node algorithms */
P f_increment(P x){I::increment(x);return x;}
P f_decrement(P x){I::decrement(x);return x;}
P f_advance(P x,std::ptrdiff_t n){I::advance(x,n);return x;}
std::ptrdiff_t f_distance(P x,P y){return I::distance(x,y);}
void f_extract(Q x,Q pend){I::extract(x,pend);}
void f_relocate(Q pos,Q x){I::relocate(pos,x);}
void f_relocate_range(Q pos,Q x,Q y){I::relocate(pos,x,y);}
void f_transfer(Q b,Q e,Q d){I::transfer(b,e,d);}
void f_reverse(Q b,Q e){I::reverse(b,e);}
Q f_gather_nulls(Q b,Q e,Q x){return I::gather_nulls(b,e,x);}
/* pointer array */
void a_room_for_one(PA* a){a->room_for_one();}
void a_reserve(PA* a,std::size_t n){a->reserve(n);}
void a_shrink_to_fit(PA* a){a->shrink_to_fit();}
void a_push_back(PA* a,P x){a->push_back(x);}
void a_erase(PA* a,P x){a->erase(x);}
void a_clear(PA* a){a->clear();}
void a_swap(PA* a,PA* b){a->swap(*b);}
Q a_begin(const PA* a){return a->begin();}
Q a_end(const PA* a){return a->end();}
Q a_at(const PA* a,std::size_t n){return a->at(n);}
/* list operations */
N* o_remove(PA* a){return detail::random_access_index_remove<N>(*a,PR());}
N* o_unique(PA* a){return detail::random_access_index_unique<N>(*a,BP());}
void o_merge(const AL* al,PA* a,Q f1){detail::random_access_index_inplace_merge<N>(*al,*a,f1,LT());}
void o_sort(const AL* al,PA* a){detail::random_access_index_sort<N>(*al,*a,LT());}
/* index */
const V* i_index(const IX* i,std::size_t n){return &(*i)[n];}
const V* i_at(const IX* i,std::size_t n){return &i->at(n);}
N* i_begin(const IX* i){return i->begin().get_node();}
N* i_end(const IX* i){return i->end().get_node();}
std::size_t i_capacity(const IX* i){return i->capacity();}
N* i_inc(IX::iterator* i){++*i;return i->get_node();}
N* i_dec(IX::iterator* i){--*i;return i->get_node();}
N* i_adv(IX::iterator* i,std::ptrdiff_t n){*i+=n;return i->get_node();}
std::ptrdiff_t i_diff(const IX::iterator* i,const IX::iterator* j){return *i-*j;}
bool i_less(const IX::iterator* i,const IX::iterator* j){return *i<*j;}
void i_relocate(IX* i,N* p,N* x){i->relocate(i->make_iterator(p),i->make_iterator(x));}
void i_relocate_range(IX* i,N* p,N* x,N* y){i->relocate(i->make_iterator(p),i->make_iterator(x),i->make_iterator(y));}
void i_reverse(IX* i){i->reverse();}
void i_rearrange(IX* i,long k){IT t; t.i=k; i->rearrange(t);}
void i_delete_all(IX* i){i->delete_all_nodes_();}
}
