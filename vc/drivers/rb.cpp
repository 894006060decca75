#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/detail/ord_index_node.hpp>
using namespace boost::multi_index::detail;
#if defined(VC_RANKED)
typedef ordered_index_node_impl<rank_policy,std::allocator<char> > I;
#else
typedef ordered_index_node_impl<null_augment_policy,std::allocator<char> > I;
#endif
typedef I* P;
extern "C" {
/* accessor probes: how the specification reads the representation */
P p_left(P x){return x->left();}
P p_right(P x){return x->right();}
P p_parent(P x){return x->parent();}
int p_color(P x){return x->color();}
#if defined(VC_RANKED)
std::size_t p_size(P x){return x->size;}
#endif
/* entry points: functions under contract */
void f_rebalance(P x,P h){I::rebalance(x,h->parent());}
void f_link_left(P x,P p,P h){I::link(x,to_left,p,h);}
void f_link_right(P x,P p,P h){I::link(x,to_right,p,h);}
P f_extract(P z,P h){return I::rebalance_for_extract(z,h->parent(),h->left(),h->right());}
P f_increment(P x){I::increment(x);return x;}
P f_decrement(P x){I::decrement(x);return x;}
void f_rotate_left(P x,P h){I::rotate_left(x,h->parent());}
void f_rotate_right(P x,P h){I::rotate_right(x,h->parent());}
void f_restore(P x,P p,P h){I::restore(x,p,h);}
}
