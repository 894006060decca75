"""Which units and which bounded runs decide which property."""
from vc.units import *
from vc import units as U
def har(cfgs,modes,flags=()): return [dict(src='hist.cpp',flags=('-DCFG=%d'%c,)+tuple(flags),modes=modes) for c in cfgs]
def tier(cfgs,modes,more=None,k=10):
    q=har(cfgs,modes); t=har(more or range(15),[(m,n*k) for m,n in modes]); return dict(quick=q,thorough=t)
BASE=['TYPED-HEAP: distinct node objects do not partially overlap; a node is reached through typed pointers only']
CMP=['the comparison predicate is a strict weak ordering of keys; a compatible key matches an interval of ranks; range predicates are monotone in the order; all three are pure']
PROPS={}
def prop(pid,**k): PROPS[pid]=k
TQ='contract-based deductive verification: contracts on the real functions, verification conditions generated from the compiled real code on every run and discharged by z3/cvc5'
RBU=['rb/link/left','rb/link/right','rb/rebalance_for_extract','rb/increment','rb/decrement','rb/restore']
prop('C02',level='proof',units=RBU+OINS,assumptions=BASE+CMP,technique=TQ,
  note='proof, for arbitrary trees, of link/rebalance/rebalance_for_extract/restore/increment/decrement (sorted sequence, black heights, links, header) and of the insertion points chosen by link_point, lower_link_point and hinted_link_point; container-level composition is covered by bounded histories',
  harness=tier([0,7,8,9,10],[('all',300),('insdel',500),('modify',300),('exc',100)]))
prop('C03',level='proof',units=OLOOK+['rb/increment','rb/decrement'],assumptions=BASE+CMP,technique=TQ,
  note='proof, for arbitrary trees and keys, of find, lower_bound, upper_bound, equal_range, contains, the four forms of range, begin and end, in unique, non-unique and ranked indices; count and whole-container use are covered by bounded histories',
  harness=tier([0,7,8,9,10],[('all',300),('insdel',300),('exc',60)]))
prop('C04',lemmas=['positions'],level='proof',units=ORANK+RBK,assumptions=BASE+CMP+['metatheory: a strictly increasing map from n nodes into 0..n-1 is the position map (the induction step of the counting lemma is discharged)','the structural part of the ranked node algorithms is that of the same template with the null policy (proved in C02; proved again for the ranked instantiation in the thorough tier)'],technique=TQ,
  note='proof, for arbitrary trees, that link, restore and rebalance_for_extract keep every subtree size exact, and that nth, rank, find_rank, lower_bound_rank, upper_bound_rank, equal_range_rank, the four forms of range_rank and count return exact positions; container-level composition is covered by bounded histories',
  harness=tier([0,4,9,10,14],[('all',300),('insdel',300),('modify',150)]))
prop('C07',level='proof',units=SEQ,assumptions=BASE,technique=TQ,
  note='proof, for arbitrary lists, of the sequenced node algorithms link, unlink, relink (single and range), reverse, swap, increment, decrement; list operations built on them are covered by bounded histories',
  harness=tier([0,1,5,14],[('list',400),('all',200),('modify',100),('nh',200),('exc',60)]))
EQH=['equality of keys is an equivalence, equal keys have equal hashes, a compatible key denotes one class of equivalent keys; all functions are pure']
prop('C05',level='proof',units=HNODE+HIDX,assumptions=BASE+EQH,technique=TQ,
  note='proof, for arbitrary chains, buckets and groups, of the node algorithms link and unlink (unique and grouped) and of find, count, contains, equal_range, link_point, in_place (unique), bucket, bucket_size, local and global iteration; bucket_array functions and composition into whole operations are covered by bounded histories',
  harness=tier([0,1,4,11,12,13],[('hash',250),('all',150),('collide',120),('modify',120)]))
prop('C06',level='proof',units=HREH+[u for u in HNODE if '/link' in u],assumptions=BASE+EQH,technique=TQ,
  note='proof, for arbitrary chains, of every node algorithm a rehash is made of (append, append_range, unlink_last, unlink_last_group, link_range, unlink_range, unlink with undo): order and grouping inside a group are kept and undo restores the chain exactly; the rehash loops, bucket counts and load factors are covered by bounded histories with exceptions injected at every hash call',
  harness=tier([0,1,4,11,12,13],[('hash',250),('exchash',100),('collide',80)]))
CONTRACT=['a user function (copy, comparison, hash, equality, key extractor, allocator) does not modify the container it is called from; it may throw at any call']
prop('C01',lemmas=['positions'],level='proof',units=layer_units(*U.layer.CASES)+cont_units('f_','g_','c_'),assumptions=BASE+CONTRACT,technique=TQ,
  note='proof that every layer function (insert_, extract_, replace_, modify_, modify_rollback_, check_rollback_, clear_) of each of the eight kinds of index keeps its index in step with the layers below it, on every path including exceptional ones; induction over the index list gives the whole chain; range operations, swap, assignment and copies are covered by bounded histories',
  harness=tier([0,1,2,3,4,13,14],[('all',150),('insdel',100),('modify',100)]))
prop('C09',level='proof',units=layer_units('insert','insert_rv','insert_emp','insert_hint','insert_hint_emp','transfer','replace','replace_rv')+cont_units('f_insert','f_emplace','f_transfer','f_replace','g_insert','g_replace')+OINS,assumptions=BASE+CONTRACT+CMP,technique=TQ,
  note='proof that a refusing layer function has changed no index, says so and names an element found equivalent by some index; container-level use is covered by bounded histories',
  harness=tier([0,1,3,4,8,11],[('collide',200),('replace',200),('nh',150)]))
prop('C10',level='proof',units=layer_units(*[c for c in U.layer.CASES if c!='clear'])+cont_units('f_','g_'),assumptions=BASE+CONTRACT,technique=TQ,
  note='proof that whenever a user function throws in a layer function, every index of the chain is left as it was (or, in modify without rollback, the element has left all of them); allocation, copies and range operations are covered by bounded histories with exceptions injected at every user call',
  harness=tier([0,1,2,3,4,13,14],[('exc',80),('exccollide',80),('excins',60),('exchash',60),('excmodify',60)]))
prop('C11',level='proof',units=layer_units('modify','modify_rollback','check_rollback','extract')+cont_units('f_modify','g_modify','g_check','f_erase','f_delete')+OPLACE,assumptions=BASE+CONTRACT+CMP,technique=TQ,
  note='proof that modify_ leaves the element well placed in all indices or in none, and modify_rollback_ in all its new places or all its old ones, exceptions included; the container-level composition is covered by bounded histories',
  harness=tier([0,1,3,4,13],[('modify',250),('excmodify',120)]))
prop('C12',level='proof',units=layer_units(*U.layer.CASES)+cont_units('f_','g_')+SEQ,assumptions=BASE+CONTRACT,technique=TQ,
  note='proof that no layer function, node algorithm of a sequenced index or container-level function constructs, assigns, destroys, allocates or frees an element other than the one the operation is about (each such step of the code must meet the ownership contract), so addresses and node-based iterators stay valid; whole operations are covered by bounded histories that compare addresses of all surviving elements',
  harness=tier([0,1,2,3,4,13,14],[('all',150),('whole',60),('list',60)]))
prop('C13',level='proof',units=layer_units('transfer','extract','insert_emp','insert_hint_emp')+cont_units('f_insert_nh','f_transfer','f_extract','g_transfer','g_insert_emp','g_extract','h_'),assumptions=BASE+CONTRACT,technique=TQ,
  note='proof of ownership transfer in extract_, insert_nh_ (both forms), transfer_, extract_for_transfer_, index_base and every node_handle operation, in every layer; merge and splice loops are covered by bounded histories',
  harness=tier([0,1,2,3,4,13,14],[('nh',200),('excnh',150)]))
prop('C14',level='proof',units=cont_units('f_','g_','h_','c_')+layer_units('insert','insert_rv','insert_emp','extract','modify','modify_rollback','clear'),assumptions=BASE+CONTRACT,technique=TQ,
  note='proof that every node allocated by a container-level function, index_base or node_handle is, at every exit, either freed once with the size and allocator it was allocated with, its element destroyed exactly once before, or still owned; auxiliary arrays, copies and destruction of whole containers are covered by bounded histories with a counting allocator under ASan',
  harness=tier([0,1,2,3,4,13,14],[('whole',120),('excwhole',100),('exc',60),('nh',60)]))
prop('C16',level='proof',units=U.CK,assumptions=['components of type int with opaque user functions (key extractors, comparisons, equalities, hashes)','user functions are pure'],technique=TQ,
  note='proof: comparison is lexicographic, equality componentwise, hashes of all key forms agree and depend on component hashes only, for every arity 1..10 and every shorter operand, user functions uninterpreted',
  harness=dict(quick=[dict(src='ckh.cpp',flags=('-DCKN=%d'%n,),modes=[('ck',60)]) for n in (1,2,3,5,7,10)],thorough=[dict(src='ckh.cpp',flags=('-DCKN=%d'%n,),modes=[('ck',1000)]) for n in range(1,11)]))
prop('C08',level='proof',units=RND,assumptions=BASE+CMP+['operator new returns memory that overlaps nothing in use','boost::integer::gcd returns the greatest common divisor of two non-negative numbers','std::stable_sort sorts stably, permutes the range it is given even when the comparison throws, and touches nothing else','the user predicate, comparison and sequence passed to remove, unique, merge, sort and rearrange do not modify the index'],technique=TQ,lemmas=['orbit','positions'],
  note='proof, for arrays of any size, of every node algorithm (extract, relocate of one and of a range, transfer, reverse, gather_nulls, advance, distance), of the pointer array (growth, insertion, erasure, clear, swap) and of remove, unique, merge, sort, relocate, rearrange, at, operator[], iterators and destruction: every position holds the element it must and every element knows its position, exceptions included; constructors, assignment and range insertion are covered by bounded histories',
  harness=tier([0,1,4,6,13],[('list',300),('all',200),('insdel',150),('exc',60)]))
NA={}
