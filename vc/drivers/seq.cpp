#include <boost/multi_index_container.hpp>
#include <boost/multi_index/sequenced_index.hpp>
using namespace boost::multi_index::detail;
typedef sequenced_index_node_impl<std::allocator<char> > I;
typedef I* P;
extern "C" {
P p_next(P x){return x->next();}
P p_prior(P x){return x->prior();}
void f_link(P x,P h){I::link(x,h);}
void f_unlink(P x){I::unlink(x);}
void f_relink(P p,P x){I::relink(p,x);}
void f_relink_range(P p,P x,P y){I::relink(p,x,y);}
void f_reverse(P h){I::reverse(h);}
void f_swap(P x,P y){I::swap(x,y);}
P f_increment(P x){I::increment(x);return x;}
P f_decrement(P x){I::decrement(x);return x;}
}
