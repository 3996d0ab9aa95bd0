#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code because JSON lines are hard to edit)."""
import json, os
I = "include/fixed_containers/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


SAMPLED = "The tests exercise each member function with one or two hand-written literals; "

prop("C01", "FixedVector behaves exactly like std::vector up to its capacity",
     "For every sequence of operations that a vector of unlimited capacity would never grow beyond the declared maximum, FixedVector holds "
     "exactly the same elements in the same order as std::vector and every call returns the equivalent value, reference or iterator position. "
     "This includes insert, emplace, erase and assign at any position, ranges of any iterator category (including empty and single-pass ranges), "
     "arguments that refer to elements of the container itself, and filling to precisely the maximum size.",
     ["inputs", "histories", "configurations"],
     "all operation histories x element types (trivial, move-only, copy-only, self-referential, heap-owning, over-aligned, non-default-constructible) x capacities including 0 and 1",
     SAMPLED + "they never compose long histories, rarely use positions in the middle of a nearly full container and never use aliasing arguments.",
     ["fixed_vector.hpp", "algorithm.hpp", "memory.hpp", "optional_storage.hpp", "iterator_utils.hpp"],
     [("advance_all_after_iterator_by_n / uninitialized_relocate", I + "fixed_vector.hpp"), ("insert_internal (forward and single-pass overloads)", I + "fixed_vector.hpp"), ("erase", I + "fixed_vector.hpp")],
     [("size_", "number of live elements", I + "fixed_vector.hpp")])

prop("C02", "FixedDeque, FixedQueue and FixedStack behave like their std counterparts",
     "For every history that stays within capacity, FixedDeque holds the same elements in the same order as std::deque and returns equivalent results, "
     "whatever the internal rotation produced by earlier pushes and pops at either end; FixedQueue and FixedStack are exactly first-in-first-out and last-in-first-out over the same elements. "
     "Indexing, iterators, insert/erase in the middle, assignment and comparison all see one logical sequence that never depends on where the elements wrap around in storage.",
     ["inputs", "histories", "configurations"],
     "all histories x all rotations of the ring x element types x capacities including 0 and 1",
     SAMPLED + "whether an operation crosses the wrap-around point depends on the whole history of pushes and pops.",
     ["fixed_deque.hpp", "fixed_queue.hpp", "fixed_stack.hpp", "queue_adapter.hpp", "stack_adapter.hpp", "circular_indexing.hpp"],
     [("increment_index_with_wraparound / decrement_index_with_wraparound", I + "circular_indexing.hpp"), ("advance_all_after_iterator_by_n, erase", I + "fixed_deque.hpp"), ("adapter forwarding", I + "queue_adapter.hpp")],
     [("starting_index_and_size_", "logical start (with wrap-around) and number of elements", I + "fixed_deque.hpp")])

prop("C03", "FixedCircularDeque/Queue keep exactly the most recent elements",
     "A FixedCircularDeque behaves like an unbounded deque that is trimmed to its capacity: push_back, emplace_back, insert and assign on a full container discard elements from the front, push_front and emplace_front discard from the back, and the survivors keep their order. "
     "No such call ever fails, loses an element it should have kept, or keeps one it should have dropped, for single values and for ranges of any length and iterator category, even longer than the capacity or when the value refers to the element being dropped. "
     "FixedCircularQueue is the FIFO over the same rule: push on a full queue replaces the oldest element.",
     ["inputs", "histories", "configurations"],
     "all histories, positions and range lengths x capacities including 0 and 1 x element types",
     SAMPLED + "the interaction of position, free space, range length and iterator category has many regimes, of which the tests hit a few.",
     ["fixed_circular_deque.hpp", "fixed_circular_queue.hpp", "fixed_deque.hpp", "queue_adapter.hpp"],
     [("pop_front_if_full / pop_back_if_full", I + "fixed_circular_deque.hpp"), ("insert_internal for forward and single-pass ranges", I + "fixed_circular_deque.hpp")])

prop("C04", "FixedList behaves like std::list and never moves its elements",
     "For every history within capacity FixedList holds the same elements in the same order as std::list and returns equivalent results, including remove, remove_if, insert/erase of ranges and reuse of freed slots. "
     "An element keeps its address, and every iterator, pointer or reference to it stays valid, until that very element is erased, whatever is inserted or erased around it; the end iterator stays valid too.",
     ["inputs", "histories", "configurations"],
     "all histories of inserts and erases (hence all free-list orders) x element types x capacities including 0 and 1",
     SAMPLED + "links and free-list shape depend on the full erase/insert history, and stability has to hold across all later operations.",
     ["fixed_list.hpp", "fixed_doubly_linked_list.hpp", "fixed_index_based_storage.hpp", "index_or_value_storage.hpp", "bidirectional_iterator.hpp"],
     [("emplace_before_index / delete_at_and_return_next_index", I + "fixed_doubly_linked_list.hpp"), ("free list of slots", I + "fixed_index_based_storage.hpp")],
     [("chain of links", "order of the elements, closed through the sentinel", I + "fixed_doubly_linked_list.hpp")])

prop("C05", "FixedString behaves like std::string and stays null-terminated",
     "For every history within capacity FixedString holds the same characters as std::string and every query (size, at, front/back, compare and the relational operators, substr, starts_with, ends_with, find-like and stream output) returns the same answer, for any bytes including embedded zeros and characters above 127. "
     "After every operation, including shrinking, erasing and filling to the last character, the buffer returned by data()/c_str() is followed by a terminating zero and conversion to std::string_view yields exactly the content.",
     ["inputs", "histories", "configurations"],
     "all histories, all byte values, all positions/counts x capacities including 0",
     SAMPLED + "termination must hold after every path that changes the length, and comparisons must agree on every pair of byte strings.",
     ["fixed_string.hpp", "fixed_vector.hpp"],
     [("null_terminate_at_max_length and the terminator written by each mutator", I + "fixed_string.hpp")])

prop("C06", "FixedMap/FixedSet behave like std::map/std::set for any comparator",
     "For every history within capacity FixedMap and FixedSet contain the same entries as std::map and std::set, iterate them in the order defined by the comparator in both directions, and find, lower_bound, upper_bound, equal_range, contains, count, insert, insert_or_assign, try_emplace, emplace, erase (by key, iterator, range or predicate) and heterogeneous lookup return equivalent results. "
     "This holds for every strict weak ordering, including reversed and stateful ones, and for every storage layout and node-compactness the library offers. Iterators and references to an entry stay valid until that entry is erased.",
     ["inputs", "histories", "configurations"],
     "all insert/erase histories x key distributions x comparators x compactness x storage templates x capacities including 0 and 1",
     SAMPLED + "rebalancing after deletion has many shape-dependent cases and only a few specific trees are tested.",
     ["fixed_map.hpp", "fixed_set.hpp", "fixed_red_black_tree.hpp", "fixed_red_black_tree_ops.hpp", "fixed_red_black_tree_nodes.hpp", "fixed_red_black_tree_storage.hpp", "fixed_red_black_tree_types.hpp", "fixed_index_based_storage.hpp"],
     [("insert/erase fix-up and rotation", I + "fixed_red_black_tree_ops.hpp"), ("delete_at_and_return_successor and slot relocation", I + "fixed_red_black_tree.hpp"), ("packed colour/parent links", I + "fixed_red_black_tree_nodes.hpp")])

prop("C07", "Operations keep the complexity their data structure promises",
     "The number of comparator calls made by a single lookup, insertion or deletion in a FixedMap or FixedSet is bounded by a small multiple of the logarithm of the number of entries, for every history that produced the container, including sorted, reversed and adversarial insert/erase sequences. "
     "Lookups in FixedUnorderedMap/FixedUnorderedSet with a well-spread hash call the key equality only a bounded number of times, however full the container is and whatever was erased before. "
     "Operations that are constant time in the std counterpart (push and pop at the ends, list insertion and erasure, indexing, iteration steps, size) do an amount of work that does not grow with the capacity or the number of elements.",
     ["inputs", "histories"],
     "all histories, in particular monotone and zig-zag key orders and repeated insert/erase churn on a full container",
     "Tests never measure work done; an unbalanced tree or a degenerate probe sequence returns the right answers.",
     ["fixed_red_black_tree_ops.hpp", "fixed_red_black_tree.hpp", "fixed_robinhood_hashtable.hpp"],
     [("red-black fix-up after insert and delete", I + "fixed_red_black_tree_ops.hpp"), ("robin-hood probing and backward shift deletion", I + "fixed_robinhood_hashtable.hpp")])

prop("C08", "FixedUnorderedMap/Set behave like the std ones, in insertion order",
     "For every history within capacity FixedUnorderedMap and FixedUnorderedSet contain exactly the entries that std::unordered_map and std::unordered_set would, and every lookup, insertion, replacement and erasure returns the equivalent result, for every hash function including constant and badly distributed ones and for every equality, right up to a completely full container. "
     "Erasing and re-inserting never makes an entry unreachable or duplicated, iteration visits each entry exactly once, in the order of insertion, and iterators and references to the other entries stay valid across insertions and erasures.",
     ["inputs", "histories", "configurations"],
     "all insert/erase histories x hash functions (identity, constant, clustered, colliding fingerprints) x capacities including 0 and 1 and full load",
     SAMPLED + "displacement chains and backward shifts appear only with specific collisions and histories.",
     ["fixed_unordered_map.hpp", "fixed_unordered_set.hpp", "fixed_map_adapter.hpp", "fixed_set_adapter.hpp", "fixed_robinhood_hashtable.hpp", "wyhash.hpp", "fixed_doubly_linked_list.hpp", "forward_iterator.hpp"],
     [("place_and_shift_up / erase with backward shift", I + "fixed_robinhood_hashtable.hpp"), ("value storage in a linked list", I + "fixed_doubly_linked_list.hpp")])

prop("C09", "EnumMap, EnumSet and EnumArray behave like ordered maps/sets over the enum",
     "For every history of operations EnumMap and EnumSet contain the same entries as std::map and std::set over the same enum, return equivalent results and iterate in ordinal order (ascending underlying value for plain enums, order of values() for rich enums and custom adapters) in both directions, for every subset of present keys. "
     "EnumArray holds one independent value per enumerator. This holds for plain enums with arbitrary (negative, sparse, non-contiguous) underlying values and for rich enums, and the checked factories accept exactly the complete duplicate-free lists.",
     ["inputs", "histories", "configurations"],
     "all histories and all subsets of present keys x enum shapes x value types",
     SAMPLED + "iteration over gaps depends on which subset of keys is present, of which the tests use a handful.",
     ["enum_map.hpp", "enum_set.hpp", "enum_array.hpp", "enum_utils.hpp", "filtered_integer_range_iterator.hpp", "index_range_predicate_iterator.hpp"],
     [("presence array and ordinal mapping", I + "enum_map.hpp"), ("filtered iteration over ordinals", I + "filtered_integer_range_iterator.hpp")])

prop("C10", "Element lifetimes are conserved and no operation touches invalid memory",
     "For every history on every container, each element object is constructed exactly once before it is used and destroyed exactly once, no element is read, assigned, moved or destroyed outside its lifetime or constructed over a live one, and after the container is destroyed no element remains alive. "
     "No operation reads or writes outside the container object, uses uninitialised or freed memory, or executes undefined behaviour, for any element type the container accepts (move-only, copy-only, self-referential, over-aligned, overloading operator& or owning heap memory) whose operations do not throw.",
     ["inputs", "histories", "configurations"],
     "all containers x all histories x element types with non-trivial special members",
     "Most tests use int, and the suite is not run under sanitizers; only a few use an instance counter and only for single operations.",
     ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_circular_deque.hpp", "fixed_list.hpp", "fixed_map.hpp", "fixed_red_black_tree_storage.hpp", "fixed_doubly_linked_list.hpp", "fixed_index_based_storage.hpp", "optional_storage.hpp", "index_or_value_storage.hpp", "algorithm.hpp", "memory.hpp", "enum_map.hpp"],
     [("OptionalStorage / IndexOrValueStorage unions", I + "optional_storage.hpp"), ("destroy_at_address_of / construct_at_address_of", I + "memory.hpp"), ("uninitialized_relocate", I + "algorithm.hpp")])

prop("C11", "Misuse is always reported through the checking policy, and nothing else is",
     "Every call that would exceed the capacity, access an empty container, index out of range, look up a missing key with at(), or use an invalid iterator range that the library documents as checked is reported through the matching function of the container's checking policy with the right values and the caller's source location, before any element is lost or any memory outside the container is touched (what a single-pass range or a string being assigned replaces may be gone: there the excess is noticed on the way); misuse of positions that the library checks by itself (erasing at the end or a reversed range of a map or set, erasing from an enum map or set what is gone, reading the end of a deque or list, relating positions of two different deques or lists) aborts. "
     "With the default policy the process aborts. No valid call, including one that fills a container to exactly its capacity, is ever reported.",
     ["inputs", "histories", "configurations"],
     "all containers x all violating and all boundary-valid calls x all states x custom and default policies",
     SAMPLED + "each check is tested with one or two death tests; the boundary (exactly full, exactly size()) and huge or wrapping counts are rarely tested.",
     ["sequence_container_checking.hpp", "map_checking.hpp", "set_checking.hpp", "optional_reference_checking.hpp", "preconditions.hpp", "fixed_vector.hpp", "fixed_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map.hpp", "fixed_set.hpp", "fixed_map_adapter.hpp", "fixed_set_adapter.hpp", "enum_map.hpp", "enum_array.hpp", "source_location.hpp"],
     [("check_not_full / check_target_size / check_not_empty", I + "fixed_vector.hpp"), ("customize::*Checking policies", I + "sequence_container_checking.hpp")])

prop("C12", "Containers never allocate, live inside their own bytes, and keep T's traits",
     "No operation on any container allocates dynamic memory (beyond what the elements themselves do), and all state lives inside the container object without any pointer to itself: the bytes of a container of trivially copyable elements can be copied elsewhere (memcpy, serialization, another address) and the copy behaves identically while the original is destroyed. "
     "Triviality is retained: a container of trivially copyable elements is trivially copyable and trivially destructible and exactly as copyable, movable and assignable as its elements; a container of other elements is not trivially copyable, but can be copied, moved and assigned whenever its elements can; and containers of structural types are themselves structural and usable as template arguments.",
     ["inputs", "histories", "configurations"],
     "all containers x all histories before and after the relocation x element types",
     "Tests check a few traits and never relocate bytes or count allocations.",
     ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map.hpp", "fixed_set.hpp", "fixed_unordered_map.hpp", "fixed_unordered_set.hpp", "enum_map.hpp", "enum_set.hpp", "concepts.hpp"],
     [("index-based links instead of pointers", I + "fixed_doubly_linked_list.hpp"), ("conditionally trivial special members (specialisations)", I + "fixed_vector.hpp")])

prop("C13", "Iterators of every container obey the iterator laws",
     "For every container state, iterators form exactly the range [begin, end): moving forward and backward (and by any offset where random access is offered) visits the same elements, differences, ordering and equality are consistent with positions, reverse iterators (also after conversion to const and through base()) mirror forward ones, and arrow, dereference and subscript agree. "
     "Mutable iterators convert to const ones that denote the same element, and value-initialised iterators compare equal.",
     ["inputs", "histories", "configurations"],
     "all containers x all states (including wrapped, sparse and fragmented ones) x all pairs of positions and offsets",
     SAMPLED + "they check a handful of positions in freshly built containers.",
     ["random_access_iterator.hpp", "bidirectional_iterator.hpp", "forward_iterator.hpp", "random_access_iterator_transformer.hpp", "fixed_deque.hpp", "fixed_map.hpp", "fixed_set.hpp", "enum_map.hpp", "integer_range_iterator.hpp", "circular_integer_range_iterator.hpp", "filtered_integer_range_iterator.hpp"],
     [("RandomAccessIterator / BidirectionalIterator / ForwardIterator with IteratorDirection", I + "random_access_iterator.hpp")])

prop("C14", "Copy, move, swap, equality and ordering are those of independent values",
     "Copying a container yields an equal, fully independent value; moving transfers the content and leaves a source that can be destroyed, assigned, cleared and refilled; copy-, move- and self-assignment and swap work from and to any state and size. "
     "Equality and ordering between containers, also of different capacities, depend only on the logical contents (element sequence, or set of entries for hashed ones), never on the history, the internal layout or leftovers of removed elements.",
     ["inputs", "histories", "configurations"],
     "all pairs of container states x all containers x element types",
     SAMPLED + "two containers with equal contents but different histories are rarely compared, and moved-from objects are hardly reused.",
     ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map.hpp", "fixed_set.hpp", "fixed_red_black_tree.hpp", "fixed_robinhood_hashtable.hpp", "fixed_map_adapter.hpp", "fixed_set_adapter.hpp", "enum_map.hpp", "enum_set.hpp"],
     [("special members of the *Base / specialisations", I + "fixed_vector.hpp"), ("operator== / operator<=>", I + "fixed_deque.hpp")])

prop("C15", "Constant evaluation and run time give the same results",
     "Every container operation can be executed during constant evaluation, for trivial and non-trivial element types, and produces exactly the same contents and return values there as at run time.",
     ["inputs", "histories", "programs"],
     "all operation histories of every container, evaluated in both modes",
     "Tests evaluate a few fixed constexpr snippets; several operations take a different code path under std::is_constant_evaluated, which then is only covered by those snippets.",
     ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map.hpp", "fixed_set.hpp", "fixed_unordered_map.hpp", "enum_map.hpp", "algorithm.hpp", "memory.hpp", "wyhash.hpp"],
     [("std::is_constant_evaluated branches", I + "fixed_vector.hpp"), ("constexpr-friendly construct/destroy", I + "memory.hpp")])

prop("C16", "Raw views decode every container's bytes without knowing its type",
     "A raw view created from the address of a FixedDeque, FixedDoublyLinkedList, FixedMap/FixedSet or FixedUnorderedMap/FixedUnorderedSet, plus only the element size, alignment and capacity, reports the same size and yields the bytes of the same elements in the same order as the container's own iterators, for every state, element size and alignment of a container with non-zero capacity (for maps and sets, alignments up to that of std::size_t; a map view of over-aligned keys or values is refused by aborting rather than misread).",
     ["inputs", "histories", "configurations"],
     "all container states x element sizes and alignments x capacities x map compactness",
     SAMPLED + "layout arithmetic is checked for a couple of element types only.",
     ["fixed_deque_raw_view.hpp", "fixed_doubly_linked_list_raw_view.hpp", "fixed_map_raw_view.hpp", "fixed_unordered_map_raw_view.hpp", "fixed_unordered_set_raw_view.hpp", "fixed_red_black_tree_view.hpp", "map_entry_raw_view.hpp"],
     [("offset arithmetic from element size/alignment/capacity", I + "fixed_doubly_linked_list_raw_view.hpp"), ("tree walk over raw bytes", I + "fixed_red_black_tree_view.hpp")])

prop("C17", "Rich enums and enum utilities are exact for every enum",
     "For every enum, plain or rich, the adapter enumerates every enumerator exactly once (in ascending order of underlying value for plain enums, in order of values() for rich enums), ordinal is the position in that enumeration, and looking a value up by name, backing enumerator or number finds exactly the declared ones: to_string/name and value_of are inverses and near-miss names or undeclared values are rejected. "
     "Rich enum values compare, hash, convert and switch exactly like their backing enumerators, carry exactly the data they were declared with, and a bool-backed rich enum negates like bool.",
     ["inputs", "configurations", "programs"],
     "all enum shapes (sparse, negative, single, 8..64-bit) x all names, near-miss names and values",
     SAMPLED + "only three or four enums and a few names are tried.",
     ["enum_utils.hpp", "consteval_compare.hpp"],
     [("EnumAdapter / RichEnumStorage", I + "enum_utils.hpp")])

prop("C18", "Struct views and reflection see exactly the fields of the struct",
     "Reflection reports every non-static data member of an aggregate exactly once, in order, with the right name, type and reference, including inherited members, and recursive reflection walks nested structs, optionals, arrays and containers depth-first without changing the object. "
     "Struct views address exactly the bytes of the named fields, for every nesting of structs, std::array, FixedVector and std::optional and every index, whatever object they were extracted from; reading and writing through the view changes that field and no other. "
     "A sub-struct filled from a super-struct points at exactly the super-struct's fields of the same path, with the sizes of its containers, the engaged optionals and the names of its enum values (where a resizable container or optional holds another one, provided both structs are completely filled), and range views do so for every element of the range and report positions outside it; a sub-struct with a path the super-struct does not have, or a field of another type, is reported by aborting and not written to.",
     ["inputs", "programs", "configurations"],
     "all aggregate shapes (field counts, nesting, arrays, dynamic sizes) x all paths x all values",
     SAMPLED + "a few struct shapes are tried with a single object.",
     ["reflection.hpp", "recursive_reflection.hpp", "struct_view.hpp", "struct_decomposition.hpp", "type_name.hpp"],
     [("struct decomposition by field count", I + "struct_decomposition.hpp"), ("path map, offsets and strides", I + "struct_view.hpp")])

prop("C19", "Integer ranges, circular indexing and integer arithmetic are exact",
     "IntegerRange containment, iteration and distance, circular increment/decrement over any range and any step, and the safe integer arithmetic and rounding-up division return the mathematically exact result, without undefined behaviour, for all operands up to the extremes of each integer type for which the result is representable (and, for circular steps, index plus step and step plus range length are); invalid ranges, division by zero, negative results requested as unsigned, relating positions of different ranges and reads beyond a range are reported by aborting, a filter is asked only about integers of its range, and a move beyond a range is reported or stops at its end, never elsewhere.",
     ["inputs"],
     "all operands including type extremes, empty and single-element ranges, steps larger than the range",
     SAMPLED + "extreme and wrapping operands are mostly not tried.",
     ["integer_range.hpp", "integer_range_iterator.hpp", "circular_indexing.hpp", "circular_integer_range_iterator.hpp", "filtered_integer_range_iterator.hpp", "int_math.hpp"],
     [("increment_index_with_wraparound / decrement_index_with_wraparound", I + "circular_indexing.hpp"), ("safe_subtract and friends", I + "int_math.hpp")])

prop("C20", "Vocabulary types (references, pairs, literals, out-params) are faithful",
     "OptionalReference refers to exactly the object it was given (or is empty, with access then reported), rebinding and comparing by the referenced value; PairView and the pair-like entry types read and write through to the referenced components and compare like std::pair; StringLiteral keeps exactly the characters and length of its literal; ComparisonChain yields the lexicographic result of its parts; in_out and out forward to the very object passed; tuple helpers apply to each element in order; and the compile-time helpers (type concepts, max_size_v, consteval comparisons) state the truth about the types and values they are asked about.",
     ["inputs", "histories"],
     "all values and all sequences of rebinding, assignment, swap and comparison",
     SAMPLED + "value categories and comparison combinations are barely sampled.",
     ["optional_reference.hpp", "pair_view.hpp", "pair.hpp", "map_entry.hpp", "string_literal.hpp", "comparison_chain.hpp", "in_out.hpp", "out.hpp", "tuples.hpp", "concepts.hpp", "max_size.hpp", "consteval_compare.hpp", "reference_storage.hpp", "value_or_reference_storage.hpp"],
     [("ReferenceStorage pointer semantics", I + "reference_storage.hpp"), ("three-way chain", I + "comparison_chain.hpp")])

prop("C21", "Reading is safe to share between threads, and objects share no hidden state",
     "Any number of threads may at the same time use the const operations (and begin, end, find, at, front, back, data and the like, as for std containers) of the same container, adapter or raw view, the values and names of the same enum, and the fields of the same struct through one view, without a data race and with the results a single thread gets: reading writes neither the object nor anything shared. Threads that work on different objects never influence each other, and a container that nobody writes may lie in read-only memory.",
     ["schedules", "histories"],
     "all interleavings of readers of one object and of independent histories on different objects, in every reachable state of the object",
     "The tests are single-threaded and cannot observe a write that stores the value already there, a cache behind a const function or a hidden static buffer.",
     ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_circular_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map_adapter.hpp", "fixed_set_adapter.hpp", "fixed_red_black_tree.hpp", "fixed_robinhood_hashtable.hpp", "enum_map.hpp", "enum_set.hpp", "enum_array.hpp", "enum_utils.hpp", "fixed_deque_raw_view.hpp", "fixed_map_raw_view.hpp", "fixed_unordered_map_raw_view.hpp", "struct_view.hpp"],
     [("no mutable members and no static mutable state", I + "fixed_robinhood_hashtable.hpp"), ("tables of enum values are constants", I + "enum_utils.hpp")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        p["anchors"]["files"] = [x for x in p["anchors"]["files"] if os.path.exists("/repo/" + x)]
        f.write(json.dumps(p) + "\n")
print(len(P))
