#!/usr/bin/env python3
"""Generates properties.jsonl (kept as the readable source of the property list)."""
import json,os
I="include/boost/multi_index/"
D=I+"detail/"
M="include/boost/multi_index_container.hpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe or ["public container, index and iterator API"],
        hook_needed=None)))

p("C01","Every index presents exactly the same elements at all times",
  "After any sequence of operations, issued through any index and whether each one succeeded, was vetoed or was cut short by an exception, every index of a container enumerates exactly the same set of element objects, forwards and (where supported) backwards, and agrees with size() and empty(). Projecting an iterator to any other index yields an iterator to the same object, and end maps to end.",
  ["histories","fault_sequences","configurations"],
  "all operation histories over all combinations of index kinds (ordered, ranked, hashed, sequenced, random access; unique and not), with an exception or allocation failure injected at any user-visible call inside any operation",
  "The tests check a few hand-written sequences on a few fixed containers and never fail an operation half way; a layer that forgets to undo its part of a vetoed or failed operation needs a particular combination of indices, history and failure point.",
  [M,D+"index_base.hpp",D+"ord_index_impl.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp"],
  [("insertion and removal are propagated through the chain of index layers; a layer links only after all later layers accepted","insert_, insert_nh_, transfer_, extract_, erase_ in each index header"),
   ("element count kept once for all indices","multi_index_container.hpp node_count")],
  [("node_count","number of elements shared by all indices",M)])

p("C02","A uniqueness veto by any index leaves everything as it was",
  "An insertion, hinted insertion, node insertion, transfer or replacement that would create two equivalent keys in some unique index is refused: the call reports failure, names an element that really conflicts (where the interface returns one), and the container, the refused value's source and every other container involved are unchanged. One that would create no duplicate in any unique index is never refused, so no history ever leaves a unique index with two equivalent keys.",
  ["histories","configurations","fault_sequences"],
  "all histories over containers with zero or more unique indices at every position in the index list, ordered and hashed, including histories with earlier failed operations",
  "Which layer vetoes, and how many layers already did work before the veto, depends on the key collision pattern and on index order; tests sample a handful of collisions.",
  [M,D+"ord_index_impl.hpp",I+"hashed_index.hpp",D+"index_base.hpp"],
  [("link point search reports a conflicting node instead of a position","ord_index_impl.hpp link_point, hinted_link_point; hashed_index.hpp link_point"),
   ("refused value returned to the caller unconsumed","multi_index_container.hpp insert_*, insert_nh_, transfer_")])

p("C03","A single-element operation that throws has no effect",
  "If a single-element insertion, emplacement, hinted insertion, node-handle insertion, extraction by key, single-element merge or splice between containers, replacement, or capacity change throws because a user operation or an allocation failed anywhere inside it, all containers and node handles involved keep exactly their previous elements, element addresses, values and order in every index (hashed enumeration order and bucket count excepted). Operations documented as non-throwing (erasing or extracting by position, relocation, reversal, same-container splicing and the like) never throw.",
  ["fault_sequences","histories","configurations"],
  "every possible failing call (allocation, element construction or assignment, comparison, hashing, equality, key extraction) inside every such operation, from any reachable state of any index combination",
  "The tests inject at most a few hand-placed throws; the number of distinct failing points multiplies with index combination and state (rehash due, capacity exhausted, partial link).",
  [M,D+"index_base.hpp",D+"ord_index_impl.hpp",I+"hashed_index.hpp",I+"random_access_index.hpp",D+"rnd_index_ptr_array.hpp",D+"bucket_array.hpp",D+"node_handle.hpp"],
  [("throwing work (allocation, comparisons, hashing, capacity) happens before any linking","insert_ in each index header"),
   ("unlinking is undone when a later layer throws or vetoes","replace_, modify_rollback_ in ord_index_impl.hpp and hashed_index.hpp"),
   ("temporary node is released on exception","index_base.hpp insert_, archive_constructed.hpp")])

p("C04","A multi-element operation that throws loses or duplicates nothing",
  "If a range insertion, range merge or splice between containers, erase by key, remove, unique, sort, list merge, rearrange, assign or resize throws part way, every container involved is still fully consistent and usable, contains only complete elements from its previous content or from the operation's input, and every element the operation was not entitled to remove is still there exactly once. Elements moving between two containers are in exactly one of them at every failure point, and reordering operations keep the full set of elements with unchanged addresses.",
  ["fault_sequences","histories","configurations"],
  "every failing call inside every multi-element operation, from any reachable state, in any pair of compatible containers",
  "Existing tests run these operations only to completion.",
  [D+"seq_index_ops.hpp",D+"rnd_index_ops.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp",I+"hashed_index.hpp",D+"ord_index_impl.hpp",M],
  [("sorting and merging restore links when the comparison throws","seq_index_ops.hpp, rnd_index_ops.hpp"),
   ("transfer moves one node at a time, extracting from the source only after the destination accepted","multi_index_container.hpp transfer_, transfer_range_"),
   ("erased tail is completed even if the predicate throws","rnd_index_ops.hpp, random_access_index.hpp")])

p("C05","modify either re-sorts, restores or removes the element, never in between",
  "After modifying an element (or its key) in place, it is correctly placed in every index at the same address and keeps its position in sequenced and random access indices and in ordered indices where its key did not change; if some index cannot accept it, it is erased (or, given a rollback that restores it, kept exactly as and where it was) and the call reports failure. If the modifier throws, or without rollback any other user operation throws, exactly that element is erased; with a rollback that restores the element and nothing throwing afterwards, an exception from another user operation propagates and leaves the container exactly as it was.",
  ["fault_sequences","histories","configurations"],
  "all states, all collision patterns in any subset of indices, modifiers and rollbacks that restore, fail to restore or throw, and exceptions at every comparison, hash, equality or key extraction during rearrangement",
  "Tests exercise collisions and one or two throwing modifiers on fixed data; exceptions raised by index functors during rearrangement are never injected.",
  [M,D+"ord_index_impl.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp",D+"modify_key_adaptor.hpp"],
  [("modify/rollback driver","multi_index_container.hpp modify_"),
   ("per-index rearrangement with restore","modify_, modify_rollback_, check_rollback_ in each index header")])

p("C06","No element or memory is leaked, destroyed twice or returned elsewhere",
  "Across any history, however it is cut short, every element constructed by a container is destroyed exactly once, every block obtained from an allocator is returned exactly once with the same size to an equal allocator, and no destroyed or released object is ever read, compared, assigned or destroyed again. All memory a container uses comes from its own allocator, so once every container and node handle using an allocator is gone nothing of that allocator remains in use.",
  ["fault_sequences","histories","configurations"],
  "all histories with faults at every allocation and user call, for stateful, unequal, propagating and non-propagating allocators",
  "A leak or mismatched deallocation on a failure path is invisible to functional tests, and most failure paths are never executed by them.",
  [M,D+"header_holder.hpp",D+"index_base.hpp",D+"auto_space.hpp",D+"bucket_array.hpp",D+"rnd_index_ptr_array.hpp",D+"copy_map.hpp",D+"node_handle.hpp",D+"archive_constructed.hpp",D+"allocator_traits.hpp"],
  [("scoped ownership of header, bucket and pointer arrays","header_holder.hpp, auto_space.hpp"),
   ("partial copies are released on exception","copy_map.hpp"),
   ("node handles own node and allocator","node_handle.hpp")])

p("C07","Elements never move: addresses and iterators stay valid until erased",
  "From insertion until it is erased, an element stays at the same address, and pointers, references and iterators of every index to it stay valid, dereference to it and step to its current neighbours, whatever else happens: other insertions and erasures, rehashing, capacity growth, sorting and reordering, updates of its own value, failed operations, swap, move construction and (for compatible index types) transfer to another container or through a node handle.",
  ["histories","fault_sequences","configurations"],
  "all histories interleaving long-held iterators of every index with every other operation, including operations that fail part way and movements of elements between containers",
  "Tests compare iterators over one or two operations; long-lived iterators across reallocation, rehash, swap and transfer combinations are not sampled.",
  [M,D+"bidir_node_iterator.hpp",D+"rnd_node_iterator.hpp",D+"hash_index_iterator.hpp",D+"rnd_index_ptr_array.hpp",D+"bucket_array.hpp",D+"node_handle.hpp"],
  [("node-based storage with intrusive links","*_index_node.hpp"),
   ("random access position array holds back-pointers fixed up on relocation","rnd_index_ptr_array.hpp, rnd_index_node.hpp")])

p("C08","Ordered indices stay sorted, stable and searchable after any history",
  "An ordered index always enumerates its elements in the order of its key and comparison; a new element goes after all existing equivalents (or as close as possible before a given hint), and elements whose key did not change keep their relative order. find, count, contains, lower_bound, upper_bound, equal_range and range return exactly what a linear scan would, for full, partial and heterogeneous keys, and lookups need only O(log n) comparisons whatever history, with failures in it, built the index.",
  ["histories","fault_sequences","configurations"],
  "all histories of insertions (with arbitrary hints), erasures, updates, transfers and failed operations; ascending and descending run-time comparison objects; simple and composite keys",
  "Tree damage needs particular insertion/deletion/update sequences, and loss of balance or of placement order does not show up in membership tests.",
  [D+"ord_index_impl.hpp",D+"ord_index_node.hpp",D+"ord_index_ops.hpp",I+"ordered_index.hpp",I+"composite_key.hpp"],
  [("red-black rebalancing on link, erase and restore","ord_index_node.hpp"),
   ("link point and hinted link point search","ord_index_impl.hpp"),
   ("lookup algorithms","ord_index_ops.hpp")])

p("C09","Ranks always equal positions in a ranked index",
  "In a ranked index, after any history including vetoed, rolled back and failed operations, the rank of every iterator equals its distance from the beginning, nth(n) is the element at that distance (end beyond the size), and every rank lookup (find_rank, lower_bound_rank, upper_bound_rank, equal_range_rank, range_rank, count) equals the rank a linear scan would give.",
  ["histories","fault_sequences"],
  "all histories of insertions, erasures, updates with and without rollback, node transfers, copies, swaps and failures",
  "Subtree sizes are maintained incrementally through rotations and undo paths; a slip shows only after particular tree shapes and update sequences.",
  [I+"ranked_index.hpp",D+"rnk_index_ops.hpp",D+"ord_index_impl.hpp",D+"ord_index_node.hpp"],
  [("subtree sizes maintained on link, unlink, rotation and restore","ranked_index.hpp augment policy"),
   ("rank queries descend using sizes","rnk_index_ops.hpp")],
  [("size","number of nodes in the subtree",I+"ranked_index.hpp")])

p("C10","Hashed indices group and find elements through any growth or failure",
  "In a hashed index, after any history, elements with equivalent keys are adjacent, each element is in the bucket its key maps to, bucket sizes add up to size(), local iterators enumerate exactly their bucket, and find, count, contains and equal_range return exactly the equivalent elements. The load factor stays within the maximum after insertions and rehash, rehash and reserve provide the requested room, and a rehash that fails because of allocation or hashing leaves every element in place and findable.",
  ["histories","fault_sequences","configurations"],
  "all histories of insertions, erasures, updates, rehash/reserve/max_load_factor changes and transfers under uniform, clustered and constant hash functions, with failures at any hash, equality or allocation",
  "Group links change shape only for particular collision patterns, and the failure path inside rehash is executed by no test.",
  [I+"hashed_index.hpp",D+"bucket_array.hpp",D+"hash_index_node.hpp",D+"hash_index_iterator.hpp",D+"hash_index_args.hpp"],
  [("group links, link/unlink with undo","hash_index_node.hpp"),
   ("rehash with restoration on exception","hashed_index.hpp unchecked_rehash"),
   ("bucket sizes and positions","bucket_array.hpp")])

p("C11","Sequenced indices behave exactly like a list with vetoes",
  "A sequenced index keeps precisely the order implied by its operations: insertions at the given place (at the end when made through another index), relocation, splicing, reversal and rearrangement move exactly the named elements, sort and merge are stable, remove and unique drop exactly the matching elements, and updates through any index keep positions. Insertions refused by other indices change nothing, and an operation cut short by an exception still leaves a proper list of the remaining elements.",
  ["histories","fault_sequences","configurations"],
  "all histories of list operations and of operations through the other indices, with throwing comparisons and predicates at every point",
  "Tests compare single operations on small fixed sequences without other indices interfering and without exceptions.",
  [I+"sequenced_index.hpp",D+"seq_index_ops.hpp",D+"seq_index_node.hpp"],
  [("doubly linked list operations","seq_index_node.hpp"),("sort, merge, remove, unique","seq_index_ops.hpp")])

p("C12","Random access indices behave exactly like a stable vector with vetoes",
  "A random access index keeps precisely the order implied by its operations, with operator[], at, iterator arithmetic, comparison and distance agreeing with that order; capacity() is never below size(), reserve guarantees room, and shrink_to_fit never loses elements. Relocation, splice, rearrange, reverse, stable sort and merge, remove and unique have list semantics, insertions refused by other indices change nothing, and an operation cut short by an exception leaves every remaining element at a consistent position.",
  ["histories","fault_sequences","configurations"],
  "all histories of positional operations and of operations through the other indices, with throwing predicates, comparisons and allocations (including denial of scratch memory) at every point",
  "Tests compare single operations on small fixed sequences; growth boundaries combined with vetoes and failures are not sampled.",
  [I+"random_access_index.hpp",D+"rnd_index_ptr_array.hpp",D+"rnd_index_ops.hpp",D+"rnd_index_node.hpp",D+"rnd_node_iterator.hpp"],
  [("position array with back pointers","rnd_index_ptr_array.hpp, rnd_index_node.hpp"),("room made before anything is linked","random_access_index.hpp insert_")],
  [("ptrs","array of node positions","random_access_index.hpp")])

p("C13","Nodes move between containers and handles without copies, loss or change",
  "Extracting an element, inserting a node handle, and merging or splicing between compatible containers (even with different keys, uniqueness or ordering) transfer the very same object: it is never copied, moved, destroyed or altered, and at each moment, including after vetoes and exceptions, it is in exactly one container or handle. Refused elements stay in the source (at their position) or in the handle, and handles keep, move, swap and finally release their element and its allocator properly.",
  ["histories","fault_sequences","configurations"],
  "all histories moving nodes among several containers of two compatible types and several handles, with vetoes in any index and failures at any comparison, hash or allocation",
  "Tests transfer between a few fixed containers and never fail a transfer; conservation must hold at every failure point.",
  [M,D+"node_handle.hpp",D+"ord_index_impl.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp",D+"index_base.hpp",D+"any_container_view.hpp"],
  [("node handle life cycle","node_handle.hpp"),("transfer of nodes with per-index insertion then extraction from the source","multi_index_container.hpp transfer_, insert_nh_; extract_ in each index")])

p("C14","Copy, move, assignment and swap carry whole containers faithfully",
  "A copy has equal elements in the same order in every index (hashed order excepted) and the same functors, and is independent of its source; move construction and swap hand over the very same objects; assignment does one or the other, with allocators propagated exactly as their traits say and elements copied or moved one by one only when allocators differ. If a copy, move or assignment throws, the target of an assignment and the source of a copy are unchanged and nothing leaks, and every participant, moved-from ones included, remains fully usable.",
  ["histories","fault_sequences","configurations"],
  "all histories of copies, moves, assignments and swaps among containers with different functors and allocators of every propagation policy, with failures at every allocation and element copy or move",
  "Tests cover a few success paths on one allocator at a time; failure half way through a copy of several indices is never executed.",
  [M,D+"copy_map.hpp",D+"do_not_copy_elements_tag.hpp",D+"bucket_array.hpp",D+"rnd_index_ptr_array.hpp",D+"header_holder.hpp",D+"allocator_traits.hpp",D+"adl_swap.hpp",D+"ord_index_impl.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp"],
  [("node mapping used to rebuild each index of a copy","copy_map.hpp; copy_ in each index header"),("allocator propagation","multi_index_container.hpp operator=, swap_, move_")])

p("C15","Saving then loading restores every index and iterator",
  "Loading an archive written from a container yields the same elements, in the same order in every ordered, ranked, sequenced and random access index (relative order of equivalent keys included), the same grouping in hashed indices, and iterators saved after it load as iterators to the restored elements or to the end. This holds for every reachable state of the container (whatever history shuffled its indices against each other), for any previous content of the target, and saving does not change the source.",
  ["histories","configurations"],
  "all reachable states of containers with every combination of index kinds, text, binary and XML archives, targets with arbitrary previous content, several containers and iterators per archive",
  "How an index encodes its order relative to the first depends on the permutation the history produced; tests serialise a few small permutations.",
  [M,D+"index_saver.hpp",D+"index_loader.hpp",D+"rnd_index_loader.hpp",D+"duplicates_iterator.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp",D+"ord_index_impl.hpp",D+"bidir_node_iterator.hpp",D+"rnd_node_iterator.hpp",D+"hash_index_iterator.hpp"],
  [("index orders saved as rearrangements of a tracked node table","index_saver.hpp, index_loader.hpp"),("equal-key runs handled separately","duplicates_iterator.hpp, rnd_index_loader.hpp")])

p("C16","A failing save or load never corrupts a container",
  "If the underlying stream or archive fails, ends early, the element's own serialization throws, memory runs out, or the loading container's constraints reject an element at any point, saving leaves the container unchanged and loading either throws leaving a consistent, usable container holding only completely loaded elements, or has loaded everything. No element or memory is leaked and the same container can be loaded again successfully afterwards.",
  ["fault_sequences","histories","crash_points"],
  "write errors, short writes and truncation at every byte of the archive, a throwing element load/save, allocation failure and functor failure at every call, from any source state into any target state",
  "Tests only perform successful round trips.",
  [M,D+"index_saver.hpp",D+"index_loader.hpp",D+"rnd_index_loader.hpp",D+"archive_constructed.hpp",D+"bad_archive_exception.hpp",D+"serialization_version.hpp"],
  [("element-wise load with owned temporary","multi_index_container.hpp load, archive_constructed.hpp"),("inconsistent archives rejected","bad_archive_exception.hpp; index_loader.hpp")])

p("C17","Safe mode reports exactly the invalid iterator uses",
  "With safe mode enabled, using an iterator that is uninitialised, invalidated by erasure, clearing, container destruction or transfer, past the end, out of bounds, of another container, or part of an inconsistent range is reported with the corresponding error before anything is changed, whatever the preceding history. No valid use is ever reported: iterators remain accepted across every operation, failure, swap, move and transfer that leaves their element alive.",
  ["histories","fault_sequences","configurations"],
  "all histories of container operations (with failures) interleaved with creation, copying, assignment, destruction and use of valid and invalid iterators of every index kind",
  "Detection depends on bookkeeping performed by every operation on lists of live iterators; tests check each error once, right after it is produced.",
  [D+"safe_mode.hpp",I+"safe_mode_errors.hpp",M,D+"ord_index_impl.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp",D+"invalidate_iterators.hpp"],
  [("every container tracks its live iterators and detaches them on erase, clear and destruction","safe_mode.hpp safe_container, safe_iterator"),("tracked iterators follow their element on swap and transfer","safe_mode.hpp swap, transfer_equivalent_iterators")])

p("C18","Threads reading one container, or using different containers, never interfere",
  "Any number of threads may at once perform read-only operations on the same container (including creating, copying, assigning, comparing, advancing, projecting and destroying their own iterators, copying the container, and lookups that fail with an exception), and any operations on containers of their own: no two threads access the same memory conflictingly without synchronisation, every operation gives the result it would give if its thread ran alone, no thread deadlocks and no memory is lost. This also holds in safe mode, where iterators register with their container, and afterwards the container still detects stale iterators and accepts live ones.",
  ["schedules","histories","fault_sequences"],
  "all interleavings of memory accesses and lock operations of several threads over containers of every index kind in normal and safe mode",
  "No existing test is multi-threaded, and bookkeeping shared by readers (safe-mode iterator lists) or by all containers (static data) only breaks under particular interleavings.",
  [D+"safe_mode.hpp",D+"scoped_bilock.hpp",D+"bucket_array.hpp",D+"ord_index_impl.hpp",D+"ord_index_ops.hpp",D+"rnk_index_ops.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp",M],
  [("registration of iterators under a per-container mutex","safe_mode.hpp"),("const operations touch no shared mutable state otherwise; containers share no mutable static data","all index headers")])

p("C19","Composite keys compare, match and hash consistently member by member",
  "Composite key results order, compare equal and hash lexicographically by their component keys, consistently with tuples and with partial keys given as prefixes, for every mix of component comparison, hashing and equality objects.",
  ["inputs","configurations"],
  "all component values, prefixes, tuple forms and component functor choices",
  "Tests use a few value combinations of one or two composite keys.",
  [I+"composite_key.hpp"],
  [("component-wise recursion","composite_key.hpp")])

p("C20","Key extractors reach the same key through any chain of access",
  "Every predefined key extractor (identity, member, member function, global function and their combination) yields the key of the referred element through values, references, reference wrappers, pointers, smart pointers and chains of these, and writable extractors give write access to that very subobject.",
  ["inputs","programs"],
  "all element types, constness variants and chained pointer types",
  "Each combination is a separate instantiation; tests instantiate a selection.",
  [I+"identity.hpp",I+"member.hpp",I+"mem_fun.hpp",I+"global_fun.hpp",I+"key.hpp"],
  [("overload sets over value, reference wrapper and chained pointer","key extractor headers")])

p("C21","Container comparison is lexicographic whatever history built the containers",
  "At any point of any history, comparing two containers or two indices with ==, !=, <, <=, > or >= gives the result of comparing the element sequences of the corresponding indices lexicographically (for hashed indices with equal functors, equality as collections irrespective of order). A comparison changes nothing, even when an element comparison throws.",
  ["histories","fault_sequences","configurations"],
  "all pairs of containers reached by histories of operations and failures (in particular equal contents with different insertion orders, bucket counts and element addresses), with exceptions at any element comparison",
  "Tests compare a few freshly built pairs and never a pair with different bucket structure or a throwing comparison.",
  [M,D+"ord_index_impl.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp"],
  [("comparison operators","index headers")])

p("C22","Invalid container definitions are rejected at compile time",
  "A container with duplicate tags, an ill-formed index list or node-incompatible transfer arguments does not compile, and well-formed ones do, including with incomplete element types where documented.",
  ["programs"],
  "all programs instantiating the library",
  "A test suite contains only programs that compile.",
  [D+"no_duplicate_tags.hpp",D+"is_index_list.hpp",D+"has_tag.hpp",M],
  [("static assertions","no_duplicate_tags.hpp, multi_index_container.hpp")])

p("C23","Invariant checking stays silent on correct use and notices broken indices",
  "With invariant checking enabled, no correct use of the library, including refused operations and operations cut short by exceptions or by lack of memory, ever makes an internal invariant check fail, and operations do the same as without it. Every operation that changes a container checks afterwards, and an ordered or hashed index in which an element's key was changed behind the container's back, so that its place is no longer right, is reported by the next such operation.",
  ["histories","fault_sequences","configurations"],
  "all histories of operations with vetoes and failures over all index combinations, with and without safe mode, and changes of a key behind the container's back at any time",
  "The tests build with invariant checking but visit a few dozen states, hardly any of them after a failure, and never give the checks anything to find.",
  [M,D+"invariant_assert.hpp",D+"scope_guard.hpp",D+"ord_index_impl.hpp",I+"ranked_index.hpp",I+"hashed_index.hpp",I+"sequenced_index.hpp",I+"random_access_index.hpp"],
  [("invariant_() of each index and the guards that run it","index headers, multi_index_container.hpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
