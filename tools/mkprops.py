#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json,os
I='include/boost/multi_index/'
D=I+'detail/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
p('C01','All indices of a container always hold exactly the same elements',
 'After every operation started from any index, each index of a multi_index_container holds exactly the same set of elements, one entry per element, and size() and empty() agree with that set. An element that could be inserted, erased, modified, replaced, extracted, cleared or swapped in one index has undergone the same in every other index.',
 ['histories','inputs','configurations'],'every sequence of operations through every index, every element value and every mix of index kinds',
 'Tests drive a few fixed sequences on a few fixed container types; agreement must hold after every history and when any one of the indices refuses the element.',
 ['include/boost/multi_index_container.hpp',D+'index_base.hpp',D+'ord_index_impl.hpp',I+'hashed_index.hpp',I+'sequenced_index.hpp',I+'random_access_index.hpp'],
 [('insert_/erase_/modify_/replace_/extract_/clear_/swap_ chain of layers','every index class; index_base.hpp is the bottom layer'),('final container entry points keep node_count','multi_index_container.hpp')],
 [('node_count','number of elements','multi_index_container.hpp')],['begin/end of every index','size','empty'])
p('C02','Ordered indices stay sorted, balanced and, when unique, duplicate-free',
 'Traversing an ordered or ranked index always yields its elements in non-decreasing order of the comparison predicate, forwards and backwards, with no two equivalent elements in a unique index and with equivalent elements of a non-unique index inserted without a position hint in insertion order. The search structure stays balanced, so that its depth is logarithmic in the number of elements.',
 ['histories','inputs'],'every sequence of insertions, hinted insertions, erasures, extractions, replacements and modifications, every strict weak ordering',
 'Red-black rebalancing has many symmetric cases that depend on the exact tree shape; tests use handfuls of elements and never inspect balance.',
 [D+'ord_index_node.hpp',D+'ord_index_impl.hpp'],
 [('link/rebalance/rotate/rebalance_for_extract','ord_index_node.hpp'),('link_point/hinted_link_point/lower_link_point/upper_link_point, in_place','ord_index_impl.hpp'),('increment/decrement','ord_index_node.hpp')],
 [('parentcolor_/left_/right_','tree links and colour','ord_index_node.hpp')],['begin','end','++','--','rbegin'])
p('C03','Ordered lookups and ranges return exactly the matching elements',
 'For any key, find, count, lower_bound, upper_bound and equal_range of an ordered or ranked index, and range with any pair of bounds including unbounded ones, return precisely the elements that the comparison predicate defines, or the end position when there are none. They do not change the container.',
 ['inputs','histories'],'every reachable tree shape, every key, every compatible strict weak ordering and pair of bounding predicates',
 'Correctness depends on tree shape and on the position of the key relative to every element; tests try a few keys on a few trees.',
 [D+'ord_index_ops.hpp',D+'ord_index_impl.hpp',D+'unbounded.hpp'],
 [('ordered_index_find/lower_bound/upper_bound/equal_range','ord_index_ops.hpp'),('range/lower_range/upper_range','ord_index_impl.hpp')],(),['find','count','lower_bound','upper_bound','equal_range','range'])
p('C04','Ranked index positions are exact',
 'In a ranked index, nth(n) is the element with exactly n elements before it, rank(it) is the number of elements before it, and find_rank, lower_bound_rank, upper_bound_rank, equal_range_rank, range_rank and count are the ranks and distances of the corresponding lookups, with the end position having rank size(). This holds after any history of insertions, erasures, modifications and rebalancings.',
 ['histories','inputs'],'every history, every position and key',
 'The subtree counts are maintained through every rotation and splice; a wrong count appears only in particular tree shapes.',
 [D+'rnk_index_ops.hpp',I+'ranked_index.hpp'],
 [('ranked_node_size/nth/rank/find_rank/lower_bound_rank/upper_bound_rank/equal_range_rank','rnk_index_ops.hpp'),('augment policy: add/remove/copy/rotate_left/rotate_right','ranked_index.hpp')],
 [('size','subtree element count','ranked_index.hpp')],['nth','rank','find_rank','lower_bound_rank','upper_bound_rank','equal_range_rank','range_rank','count'])
p('C05','Hashed indices keep every element findable and equivalents together',
 'In a hashed index every element is found by find, count and equal_range for its key, these return exactly the elements equivalent to the key, equivalent elements are adjacent in traversal, and a unique index never holds two equivalent elements. Every element belongs to the bucket its hash selects and local iteration over a bucket visits exactly the elements of that bucket.',
 ['histories','inputs'],'every history of insertions, erasures, modifications and replacements, every hash and equality including heavily colliding ones',
 'Group and bucket links have special cases for group sizes 1, 2 and 3 or more and for first, middle and last positions in bucket; tests hash well and use few duplicates.',
 [D+'hash_index_node.hpp',D+'hash_index_iterator.hpp',D+'bucket_array.hpp',I+'hashed_index.hpp'],
 [('hashed_index_node_alg link/unlink/append/unlink_last/after','hash_index_node.hpp'),('link_point, find, count, equal_range, insert_, replace_, modify_, extract_','hashed_index.hpp'),('position of a hash in the bucket array','bucket_array.hpp')],
 [('prior_/next_','double chain with group short-cuts','hash_index_node.hpp')],['find','count','equal_range','bucket','begin(n)','bucket_size'])
p('C06','Rehashing preserves content and grouping and respects the load factor',
 'After rehash, reserve, automatic growth or a change of max_load_factor, a hashed index holds exactly the same elements with equivalent elements still adjacent and in the same relative order, every element in its new bucket, the bucket count at least what was requested and size() never above max_load_factor() times bucket_count() after an insertion. If the hash function throws during a rehash the index is left exactly as it was.',
 ['histories','inputs','fault_sequences'],'every size, bucket count, load factor, hash function and throwing point',
 'Tests rehash a few small containers; the preservation has to hold for every distribution over buckets and group sizes and every throw position.',
 [I+'hashed_index.hpp',D+'bucket_array.hpp',D+'hash_index_node.hpp'],
 [('unchecked_rehash/calculate_max_load/check_rehash/reserve','hashed_index.hpp'),('size_index/position','bucket_array.hpp')],
 [('max_load','size that triggers rehash','hashed_index.hpp')],['rehash','reserve','bucket_count','load_factor','max_load_factor'])
p('C07','A sequenced index behaves exactly as a list',
 'A sequenced index presents its elements in the order its list operations define: insertion at any position, push/pop, erase, resize, assign, splice, remove, unique, merge, sort, reverse, relocate and rearrange have exactly the effect the corresponding list operation has on order and content, and traversal backwards is the reverse of traversal forwards. Elements not concerned by an operation keep their relative order.',
 ['histories','inputs'],'every list content, every position or range including adjacent, overlapping-boundary and self cases',
 'Relinking has boundary cases (position inside or adjacent to the moved range, first, last, single) that tests sample sparsely.',
 [D+'seq_index_node.hpp',D+'seq_index_ops.hpp',I+'sequenced_index.hpp'],
 [('link/unlink/relink/reverse/swap','seq_index_node.hpp'),('remove/unique/merge/sort/collate','seq_index_ops.hpp'),('rearrange, splice, relocate, insert, erase','sequenced_index.hpp')],
 [('prior_/next_','circular chain','seq_index_node.hpp')],['begin','end','rbegin','front','back','operator=='])
p('C08','A random-access index is an exact array of its elements',
 'In a random-access index of n elements, positions 0..n-1 hold each element exactly once, operator[], at, begin()+i, iterator differences and iterator order all agree with those positions, and insertion, erasure, relocate, splice, remove, unique, merge, sort, reverse and rearrange change the positions exactly as the corresponding vector operations would. at() out of range throws and changes nothing; capacity() never falls below size().',
 ['histories','inputs'],'every content, position, range and capacity history',
 'Back-pointers and array slots must agree after each shift; off-by-one errors show only for specific relative positions of source and destination.',
 [D+'rnd_index_node.hpp',D+'rnd_index_ops.hpp',D+'rnd_index_ptr_array.hpp',I+'random_access_index.hpp',D+'rnd_node_iterator.hpp'],
 [('increment/advance/distance/position/relocate/extract/transfer/reverse','rnd_index_node.hpp'),('room_for_one/reserve/shrink_to_fit','rnd_index_ptr_array.hpp'),('remove/unique/inplace_merge/sort','rnd_index_ops.hpp')],
 [('up_ / pointer array','slot back-pointer and slots','rnd_index_node.hpp')],['operator[]','at','iterator arithmetic','capacity'])
p('C09','A refused insertion or replacement changes nothing and names the blocker',
 'When insertion, emplacement, node insertion or replacement is refused because some index would hold an equivalent element, no index changes in content, order, size or element values (a hashed index may have been rehashed), the result says it was not done, and the returned position is an element of the container that blocks it in a unique index. When no index bans the element the operation is carried out in all indices.',
 ['inputs','histories','configurations'],'every content, every candidate, any subset of unique indices banning it, in any order of indices',
 'Which index bans and what had already been done in the others varies with every container type; tests ban in one or two configurations.',
 ['include/boost/multi_index_container.hpp',D+'ord_index_impl.hpp',I+'hashed_index.hpp',I+'sequenced_index.hpp',I+'random_access_index.hpp',D+'index_base.hpp'],
 [('link_point before super::insert_, link after','ord_index_impl.hpp, hashed_index.hpp'),('replace_ tests all layers before assigning','index_base.hpp replace_')],(),['insert','emplace','replace','insert(node_handle)'])
p('C10','An exception leaves the container as it was and leaks nothing',
 'If a user-supplied copy constructor, comparison, hash, equality, key extractor, predicate or allocator throws during insertion, emplacement, replacement, erasure by key, lookup, range insertion, rehash, reserve, copy construction or assignment, the container is left valid and with no element lost or duplicated: single-element operations leave it exactly as before (apart from a possible rehash of hashed indices), and assignment leaves the target unchanged. No memory or element leaks.',
 ['fault_sequences','histories'],'every throwing point of every operation',
 'Tests contain almost no throwing elements; each potential throw point in each layer is a separate path.',
 ['include/boost/multi_index_container.hpp',D+'auto_space.hpp',D+'copy_map.hpp',D+'scope_guard.hpp',D+'ord_index_impl.hpp',I+'hashed_index.hpp'],
 [('try/catch around insertion and scope guards','multi_index_container.hpp'),('copy_map destructor releases nodes','copy_map.hpp'),('auto_space RAII','auto_space.hpp'),('undo of in-place restructuring','hashed_index.hpp modify_/replace_/rehash, ord_index_impl.hpp modify_/replace_')],(),['all operations under throwing user code'])
p('C11','modify repositions, rolls back or erases, in all indices alike',
 'After modify or modify_key the element carries the modified value and is correctly placed in every index, or, if the new value collides in some index and no rollback is given, it is gone from every index and destroyed. With a rollback, if the new value collides in some index or a user-supplied operation throws while the element is being repositioned, the rollback is applied and the element stays, with its rolled-back value, at its original place in every index; it is erased, from every index and exactly once, only if the modifier throws, or the rollback throws or fails to restore the element.',
 ['inputs','histories','fault_sequences'],'every content, modification, collision pattern over the indices and throwing point of modifier, rollback, comparison and hash',
 'The layered in-place test, unlink, relink and undo paths depend on which index collides and on the position of neighbours; tests exercise few collisions and nearly no throws.',
 ['include/boost/multi_index_container.hpp',D+'ord_index_impl.hpp',I+'hashed_index.hpp',I+'sequenced_index.hpp',I+'random_access_index.hpp',D+'modify_key_adaptor.hpp'],
 [('modify_/modify_rollback_/check_rollback_','all layers'),('in_place','ord_index_impl.hpp, hashed_index.hpp'),('final modify_ with and without rollback','multi_index_container.hpp')],(),['modify','modify_key'])
p('C12','Elements never move: iterators and references stay valid until erasure',
 'No operation moves, copies, reallocates or destroys an element other than the ones it is asked to erase or replace: addresses of elements and iterators to them, through every index, remain valid and keep denoting the same element across insertion, erasure of others, rehash, relocate, sort, splice within the container, swap, modify and move construction. project and iterator_to return the position of the same element in the other index.',
 ['histories','inputs'],'every history',
 'Address stability is never asserted by tests beyond single examples.',
 ['include/boost/multi_index_container.hpp',D+'ord_index_impl.hpp',I+'hashed_index.hpp',I+'sequenced_index.hpp',I+'random_access_index.hpp'],
 [('nodes are only relinked','node algorithms of every index'),('project/iterator_to','multi_index_container.hpp and every index')],(),['&*it','project','iterator_to'])
p('C13','Node handles, merge and splice transfer elements without copy or loss',
 'extract removes exactly the given element and hands over ownership without copying it; inserting a node handle either transfers the element into every index or returns it intact in the handle; merge and splice between containers move exactly the elements the destination accepts, by node, and leave the refused ones in the source unchanged. A node handle that still owns an element releases it exactly once.',
 ['histories','inputs','configurations'],'every pair of containers with equal allocators, element and refusal pattern',
 'The tests transfer a few elements; a lost or doubly owned node depends on the refusal pattern.',
 ['include/boost/multi_index_container.hpp',D+'node_handle.hpp',D+'ord_index_impl.hpp',I+'hashed_index.hpp',I+'sequenced_index.hpp',I+'random_access_index.hpp'],
 [('extract_/insert_nh_/transfer_','multi_index_container.hpp'),('node_handle ownership','node_handle.hpp'),('merge/splice/extract in each index','index classes')],(),['extract','insert(node_handle)','merge','splice'])
p('C14','Every element is constructed, destroyed and deallocated exactly once',
 'Over the life of containers and node handles, every allocated node and auxiliary array is deallocated exactly once with the size it was allocated with, and every constructed element is destroyed exactly once before its storage is released, including on erase, clear, failed insertion, assignment, move, modify that erases, and destruction. No operation reads an element after its destruction.',
 ['histories','fault_sequences'],'every history and every throwing point',
 'Tests only count allocations in a few scenarios, with no throwing.',
 ['include/boost/multi_index_container.hpp',D+'auto_space.hpp',D+'copy_map.hpp',D+'node_handle.hpp',D+'allocator_traits.hpp'],
 [('allocate_node/deallocate_node/final_delete_node_','multi_index_container.hpp'),('delete_all_nodes_','each index'),('auto_space','auto_space.hpp')],(),['allocator traffic','constructor/destructor traffic'])
p('C15','Copies, assignments, swaps and moves reproduce content and order everywhere',
 'A copy of a container compares equal to the original in every index: same elements, same order in sequenced, random-access and ordered indices (including among equivalents) and same grouping in hashed ones, and is independent of it. Assignment, move and swap transfer content and order likewise, and the relational operators of each index give exactly the lexicographical or multiset comparison of the traversals.',
 ['inputs','histories','configurations'],'every content, any mix of indices, equal or unequal allocators',
 'Structure is copied index by index through a node map; order among equivalents and tree shape depend on history.',
 ['include/boost/multi_index_container.hpp',D+'copy_map.hpp',D+'ord_index_impl.hpp',D+'index_loader.hpp',I+'hashed_index.hpp',I+'sequenced_index.hpp',I+'random_access_index.hpp'],
 [('copy_map clone/find/copy_clone','copy_map.hpp'),('copy_ of each layer','index classes'),('index_matcher/operator==','index classes')],(),['copy constructor','operator=','swap','operator==','operator<'])
p('C16','Composite keys compare lexicographically and hash consistently',
 'Comparison of composite key results with each other, with tuples of values and with prefixes of values is the lexicographical comparison of the component keys by the component predicates, equality is component-wise equality by the component predicates, and the three agree (irreflexive, transitive, consistent under swapping the argument forms). Equal composite keys, in whatever form, have equal hashes, and the hash depends on all components in order.',
 ['inputs','configurations'],'every tuple of component values, every prefix length and every argument form',
 'There are many overloads generated by preprocessor repetition; tests sample particular arities and values.',
 [I+'composite_key.hpp'],
 [('compare_ckey_*, equal_ckey_*, hash_ckey_* recursion','composite_key.hpp')],(),['composite_key_compare','composite_key_equal_to','composite_key_hash','operator==, <'])
p('C17','Serialization round-trips content and order of every index',
 'Loading an archive saved from a container yields a container with the same elements in the same order in every sequenced and random-access index and, among equivalent elements, in every ordered one, and iterators saved with it denote the same elements. Loading refuses archives whose indices cannot accept the elements.',
 ['inputs','histories'],'every container content and archive kind',
 'Tests save and load a few containers.',
 ['include/boost/multi_index_container.hpp',D+'index_saver.hpp',D+'index_loader.hpp',D+'rnd_index_loader.hpp',D+'bidir_node_iterator.hpp'],
 [('save/load','multi_index_container.hpp'),('index_saver/index_loader','detail')],(),['serialize'])
p('C18','Safe mode reports every invalid iterator use before it acts',
 'With safe mode enabled, every operation given a singular, dereferenced-past-end, erased, foreign or out-of-order iterator reports the corresponding error before touching the container, and no valid use is reported. Iterators become invalid exactly when their element leaves the container.',
 ['histories','programs'],'every history and every misuse',
 'Tests provoke one instance of each error.',
 [D+'safe_mode.hpp','every index'],
 [('safe_iterator/safe_container intrusive lists','safe_mode.hpp')],(),['safe_mode_exception'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
