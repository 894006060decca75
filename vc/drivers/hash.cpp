#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
using namespace boost::multi_index::detail;
typedef hashed_index_node_impl<std::allocator<char> > I;
typedef I::pointer P; typedef I::base_pointer B;
#ifdef UNIQUE
typedef hashed_index_node_alg<I,hashed_unique_tag> A;
#else
typedef hashed_index_node_alg<I,hashed_non_unique_tag> A;
#endif
extern "C" {
P p_prior(B x){return x->prior();}
B p_next(P x){return x->next();}
bool f_is_first_of_bucket(P x){return A::is_first_of_bucket(x);}
P f_after(P x){return A::after(x);}
P f_after_local(P x){return A::after_local(x);}
P f_next_to_inspect(P x){return A::next_to_inspect(x);}
void f_link(P x,B b,P h){A::link(x,b,h);}
void f_unlink(P x){A::unlink(x);}
void f_unlink_undo(P x){A::unlink_undo u;A::unlink(x,u);u();}
#ifdef UNIQUE
void f_append(P x,P h){A::append(x,h);}
bool f_unlink_last(P h){return A::unlink_last(h);}
#else
bool f_is_first_of_group(P x){return A::is_first_of_group(x);}
void f_link_group(P x,P f,P l){A::link(x,f,l);}
void f_link_range(P f,P l,B b,P h){A::link_range(f,l,b,h);}
void f_append_range(P f,P l,P h){A::append_range(f,l,h);}
P f_unlink_last_group(P h,bool* e){std::pair<P,bool> p=A::unlink_last_group(h);*e=p.second;return p.first;}
void f_unlink_range(P f,P l){A::unlink_range(f,l);}
#endif
}
