#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, in one place)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/sfl/"
SEQ = [I + c + ".hpp" for c in ("vector", "compact_vector", "small_vector", "static_vector", "segmented_vector")]
DEV = [I + "devector.hpp", I + "segmented_devector.hpp"]
def A(kinds, pre=("small_", "static_")): return [I + p + k + ".hpp" for p in pre for k in kinds]
OU = A(("flat_set", "flat_map")); OM = A(("flat_multiset", "flat_multimap"))
UU = A(("unordered_flat_set", "unordered_flat_map")); UM = A(("unordered_flat_multiset", "unordered_flat_multimap"))
HEAP = [I + c + ".hpp" for c in ("vector", "compact_vector", "segmented_vector")] + DEV + [I + "small_vector.hpp"] + [f for f in OU + OM + UU + UM if "small_" in f]
SMALL = [I + "small_vector.hpp"] + [f for f in OU + OM + UU + UM if "small_" in f]
STATIC = [I + "static_vector.hpp"] + [f for f in OU + OM + UU + UM if "static_" in f]
PRIV = I + "private.hpp"
ALL = SEQ + DEV + OU + OM + UU + UM

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None), _note=note))

REST = ["return values", "size(), iteration over the container and element values", "the other container of the history"]
prop("C01", "Vector-like containers behave as the mathematical sequence they document",
  "After every history of successful constructor, assign, insert, emplace, push, pop, erase, resize, clear, copy, move and swap calls, each vector-like container (vector, compact_vector, small_vector, static_vector, segmented_vector) holds exactly the elements, in exactly the order, that the documented meaning of those calls gives for a finite sequence. "
  "Every call returns the documented value (iterators and references designate the documented position, counts are exact), leaves its arguments and every unrelated container unchanged except where a move is documented, and never crashes.",
  ["histories", "inputs", "configurations"], "every history of calls with arguments inside their preconditions; every split between room at hand and room needed; every segment alignment",
  "the tests run a fixed script per member function from one or two starting layouts; correctness has to hold from every reachable combination of size, spare capacity, segment offset, insert position and count",
  SEQ + [PRIV], [("insert/emplace at a position: reallocating, shifting and append branches", "include/sfl/vector.hpp emplace, insert_fill_n, insert_range; same functions in small_vector, static_vector, compact_vector, segmented_vector"), ("erase ranges and resize", "erase, resize in each container"), ("segment-wise move/copy algorithms", "include/sfl/private.hpp move, move_backward, copy for segmented iterators")],
  [("first/last/end-of-storage", "element range and room behind it", "data_ of each container")], REST)
prop("C02", "Double-ended containers behave as sequences at both ends and in the middle",
  "After every history of successful calls, including pushes, pops, emplacements, reserves and resizes at the front and at the back in any mixture, devector and segmented_devector hold exactly the element sequence the documented meaning of the calls gives, whichever end or interior position each call touches. "
  "Every call returns the documented iterator, reference or count, an insertion or erasure at a position yields the same sequence whichever half is shifted, and unrelated containers and arguments are left unchanged.",
  ["histories", "inputs", "configurations"], "every history of front, back and interior calls; every distribution of spare room between the two ends; every first-element offset within a segment",
  "which side is shifted or grown depends on position, count and the room left at each end; the tests visit a few of these combinations",
  DEV + [PRIV], [("choice of the side to shift or grow", "devector.hpp emplace_aux / insert_fill_n / insert_range, segmented_devector.hpp same"), ("growth at one end", "grow_storage_front, grow_storage_back"), ("resize at either end", "resize_front, resize_back, resize")],
  [("begin/end of storage and of elements", "free room at the front and at the back", "data_.bos_, first_, last_, eos_ (table and segment ends in segmented_devector)")], REST)
prop("C03", "Sorted flat sets and maps always hold sorted, unique keys and the right elements",
  "After every history of successful calls, a small or static flat set or map contains one element per equivalence class of keys inserted and not erased since (the first inserted one wins, later duplicates are rejected), iterated in strictly increasing key order under the container's comparison object. "
  "Inserting reports the position of the element with that key and whether insertion took place; a hint, right or wrong, never changes the outcome; erasing removes exactly the designated elements and returns the documented position or count.",
  ["histories", "inputs"], "every history of insertions (value, range, hinted with any hint, emplaced), erasures, assignments, with every key pattern and comparison object state",
  "the tests insert a few keys with a handful of hints; uniqueness and order must survive every position of the hint relative to the key and every reallocation state",
  OU + [PRIV], [("hint validation", "find_hint_insert_pos / calculate_position_for_insert in small_flat_set.hpp and siblings"), ("binary search", "lower_bound / equal_range in private.hpp and the containers"), ("range assignment", "assign_range, initialize_range")],
  [("sorted element array", "keys strictly increasing", "data_.first_..last_")], REST)
prop("C04", "Sorted flat multisets and multimaps always hold all inserted elements, sorted",
  "After every history of successful calls, a small or static flat multiset or multimap holds every inserted and not yet erased element, iterated in non-decreasing key order under its comparison object; inserting, with or without a right or wrong hint, keeps the elements already there in their relative order. "
  "Every insertion succeeds and returns the position of the new element, and erasing by key removes and counts all equivalent elements while erasing by position removes exactly those designated.",
  ["histories", "inputs"], "every history of insertions (value, range, hinted with any hint, emplaced), erasures and assignments with duplicate keys",
  "where an element goes depends on the hint, the neighbouring keys and the duplicates; tests use few duplicates",
  OM + [PRIV], [("insertion position for duplicates", "find_hint_insert_pos / calculate_position_for_insert in small_flat_multiset.hpp and siblings"), ("erase by key", "erase(const Key&), equal_range")],
  [("sorted element array", "keys non-decreasing", "data_.first_..last_")], REST)
prop("C05", "Unordered flat sets and maps hold exactly one element per key",
  "After every history of successful calls, a small or static unordered flat set or map contains exactly one element per class of equal keys (under its key-equality object) inserted and not erased since, the first inserted element winning over later duplicates. "
  "Inserting reports the position of the element with that key and whether insertion took place, erasing removes exactly the designated elements, keeps all others, and returns the documented position or count.",
  ["histories", "inputs"], "every history of insertions, erasures, assignments with every key pattern and equality object state",
  "erasure fills the hole with another element, so results depend on the position erased and the size; tests cover few combinations",
  UU + [PRIV], [("linear key search before insertion", "insert_aux / find in small_unordered_flat_set.hpp and siblings"), ("erase by swapping in the last element", "erase(const_iterator), erase(first,last)")],
  [("element array", "pairwise different keys", "data_.first_..last_")], REST)
prop("C06", "Unordered flat multisets and multimaps hold exactly the inserted multiset",
  "After every history of successful calls, a small or static unordered flat multiset or multimap holds exactly the multiset of elements inserted and not erased since; every insertion succeeds and returns the position of the new element. "
  "Erasing by key removes and counts all elements with an equal key and no others, erasing by position or range removes exactly those designated and returns the documented position.",
  ["histories", "inputs"], "every history of insertions, erasures, assignments with every duplicate pattern",
  "erase by key moves elements while it scans; which elements survive depends on where equal keys lie",
  UM + [PRIV], [("erase by key", "erase(const Key&) in small_unordered_flat_multiset.hpp and siblings"), ("erase range", "erase(first,last)")],
  [("element array", "the multiset", "data_.first_..last_")], REST)
prop("C07", "Lookups find exactly the matching elements, with any key type",
  "find, contains, count, lower_bound, upper_bound and equal_range (where the container has them) return exactly the documented positions or numbers for every content and every queried key, present or absent, on const and non-const containers, and do not change the container. "
  "When the comparison object is transparent, lookup and erase by another key type give the result of the corresponding key without constructing a key.",
  ["inputs", "histories"], "every content (including empty, single, duplicates at the ends) and every key before, between, at and after the stored keys",
  "binary search mistakes show only at particular sizes and key positions",
  OU + OM + UU + UM + [PRIV], [("binary search", "lower_bound, upper_bound, equal_range in private.hpp"), ("container lookups", "find, count, contains, lower_bound, upper_bound, equal_range of each associative container")],
  [], ["return values", "positions of returned iterators", "number of key objects made during the call"])
prop("C08", "Keyed map operations insert only when absent and assign only when asked",
  "In the unique-key maps, operator[], try_emplace and insert do nothing to an existing element and otherwise insert exactly one; insert_or_assign assigns the mapped value of an existing element and otherwise inserts; at returns the mapped value or throws std::out_of_range. "
  "try_emplace does not move from or consume its arguments when the key is present, each call reports the right position and insertion flag, and only the element with that key is affected.",
  ["inputs", "histories", "fault_sequences"], "every content, key (present/absent), hint, key type and value category of the arguments, also when an element operation throws on the way",
  "present/absent × hint × value category × storage state combinations are only sampled by tests",
  [f for f in OU + UU if "map" in f], [("conditional insertion", "try_emplace_aux, insert_or_assign_aux, operator[] in *_flat_map.hpp"), ("at", "at() in *_flat_map.hpp")],
  [("element array", "pairs of key and mapped value", "data_.first_..last_")], ["return values", "mapped values", "moved-from state of arguments"])
prop("C09", "Capacity and reservation promises hold in every state",
  "size() <= capacity() always, available() (front and back) is exactly the room left before the next growth, and after a successful reserve (reserve_front, reserve_back) the container accepts that many elements at that end without further allocation; reserving less than is there changes nothing. "
  "Clearing, popping and erasing never give back storage, shrink_to_fit never increases it and keeps the elements, and compact_vector's capacity is always its size while a static container's is always N.",
  ["histories", "inputs", "configurations"], "every history of insertions, removals, reserves, shrinks, resizes, copies, moves and swaps",
  "bookkeeping of room depends on the whole history, including partially used segments and room stranded at the other end",
  ALL, [("growth computation", "calculate_new_capacity; calculate_additional_capacity_for_grow_storage_front/_back; grow_storage / grow_storage_front / grow_storage_back"), ("reserve and shrink", "reserve, reserve_front, reserve_back, shrink_to_fit, shrink_storage")],
  [("storage extent", "capacity and room at each end", "data_")], ["capacity(), available(), available_front(), available_back()", "allocation events"])
prop("C10", "Small and static containers use their inline storage as documented",
  "A static container never allocates and keeps its elements inside the object; a small container with inline capacity N makes no allocation as long as it has never needed room for more than N elements, keeps its elements inside the object exactly while its capacity is N, and after shrink_to_fit with at most N elements is back inside the object with its dynamic memory released. "
  "Copying, moving, swapping and assigning between any combination of inline and heap-backed small containers preserves this.",
  ["histories", "configurations"], "every history, every pair of inline/heap-backed source and target, every N including 0",
  "transitions between inline and heap storage happen in many functions, each with its own branch; tests sample few pairs",
  SMALL + STATIC, [("inline/heap decision", "is_internal_storage / data_.first_ == internal_storage in small_*.hpp; allocate/deallocate helpers"), ("move and swap of inline containers", "initialize_move, assign_move, swap in small_*.hpp")],
  [("internal storage", "the N inline slots", "data_ of small_* / static_*")], ["addresses of elements relative to the container object", "allocation events", "capacity()"])
prop("C11", "Every element is constructed once, destroyed once and used only in between",
  "Over every history, including calls ended early by an exception from an element operation, comparison, predicate, iterator or the allocator, no element is read, assigned, moved from or destroyed while not alive, none is constructed over a live one, and none is destroyed twice. "
  "The live elements outside of calls are exactly those the containers report, and once the containers are gone none is left alive.",
  ["histories", "fault_sequences"], "every history, and for every call every throwing point within it",
  "tests inject failures at few points of few calls; a lifetime error needs a specific branch × failure point",
  ALL + [PRIV], [("rollback guards", "scope_guard in private.hpp; SFL_CATCH blocks in uninitialized_* algorithms"), ("gap handling on insertion", "insert_fill_n, insert_range, emplace of each sequence container"), ("element destruction", "destroy_a, clear, erase, destructors")],
  [("element range", "slots that hold a live element", "data_.first_..last_")], ["constructions, assignments, destructions with addresses"])
prop("C12", "Memory is obtained from the right allocator and given back exactly once",
  "Over every history, including calls ended early by an exception, every block a container obtains is returned exactly once, through an allocator equal to the one it came from, with the size it was requested with, and none is left when the containers are gone; nothing is written outside the memory the container owns or in memory it has returned. "
  "Copy construction selects the allocator as select_on_container_copy_construction says, and assignment and swap replace the allocator exactly when the propagation traits say so.",
  ["histories", "fault_sequences", "configurations"], "every history with equal and unequal, propagating and non-propagating stateful allocators; every failing allocation",
  "tests mostly use one allocator type with equal instances, and few allocation failures",
  HEAP + [PRIV], [("allocate/deallocate wrappers", "allocate, deallocate in private.hpp; allocate_storage, deallocate_storage, reset in containers"), ("allocator propagation", "assign_copy, assign_move, swap; move_assign/copy_assign/swap of ref_to_alloc")],
  [("allocator", "the stored allocator instance", "data_ (base class of the data holder)")], ["allocation and deallocation events with allocator identity and size", "get_allocator()"])
prop("C13", "Copying, moving and swapping transfer exactly the value and state",
  "After copy construction or assignment (with or without explicit allocator) the target equals the source in elements, order where ordered, and comparison object, and the source is unchanged; after a move the target has what the source had; swap exchanges both, for every pair of sizes, storage states and allocators. "
  "Afterwards the two containers are independent, a moved-from container remains usable, and self-assignment (copying) changes nothing.",
  ["histories", "configurations"], "every pair of states of the two containers (empty, inline, heap-backed, any segment offset) and every allocator relation",
  "each operation has many branches depending on storage states and allocator equality of both sides; the tests cover a part of the product",
  ALL, [("copy/move construction and assignment", "initialize_copy, initialize_move, assign_copy, assign_move"), ("swap", "swap member and free function")],
  [("element storage, comparison object, allocator", "what is transferred", "data_")], ["contents of both containers afterwards", "get_allocator(), key_comp()/key_eq() of both"])
prop("C14", "A failing call leaves every container valid (basic guarantee)",
  "When an element operation, comparison, equality, predicate, input iterator or allocation throws inside any call, the exception reaches the caller and every container involved is still valid: reported size matches its live elements, order and uniqueness of keys hold, and its elements come from the old content, the arguments or moved-from values. "
  "It can still be read, assigned, modified and destroyed, and nothing is leaked.",
  ["fault_sequences", "histories", "inputs"], "every call from every reachable state, failing at every throwing point, followed by further calls",
  "the number of (state, call, failing point) triples is far beyond hand-written tests",
  ALL + [PRIV], [("rollback guards", "scope_guard and SFL_TRY/SFL_CATCH in private.hpp and containers"), ("insertion by append and rotate/shift", "emplace/insert of flat containers")],
  [("element range", "first/last consistent with live elements", "data_")], ["state after the exception and behaviour of following calls"])
prop("C15", "Appending and reserving are all-or-nothing where documented",
  "When push_back, emplace_back, push_front, emplace_front, reserve, reserve_front, reserve_back or shrink_to_fit of a container documented with the strong guarantee (and element moves do not throw or elements can be copied) throws, the container is exactly as before the call: same elements in the same order and same size. "
  "The same holds when insertion of a single element into an associative container throws before an element could be added.",
  ["fault_sequences", "histories"], "every state, every failing point of the call, nothrow-movable and only-copyable-safely elements",
  "a violation needs a reallocation state and a particular failing copy/move; tests try one failing point",
  [f for f in ALL if "static_vector" not in f] + [PRIV], [("move_if_noexcept relocation", "uninitialized_move_if_noexcept_a in private.hpp"), ("build aside, then commit", "emplace_back/push_back growth branches; reserve; shrink_to_fit")],
  [("element range", "unchanged on failure", "data_")], ["contents before and after the exception"])
prop("C16", "Arguments may refer to the container's own elements",
  "Inserting, emplacing, pushing, resizing or assigning a value which is a reference to an element of the very container gives the result of first copying that value, in every position, count and storage state; erasing by a key that refers to an element of the container removes all elements with that key. "
  "The same goes for keys and mapped values passed to map operations as const references.",
  ["inputs", "histories"], "every referenced element × insert position × count × free room",
  "the outcome changes only when the referenced element is shifted or reallocated before use; tests try few positions",
  ALL, [("copy before shifting", "temporary values in emplace, insert_fill_n, resize"), ("growth with the new element built first", "emplace/emplace_back reallocation branches"), ("erase(const Key&)", "associative containers")],
  [], ["contents after the call"])
prop("C17", "Elements stay where references to them point, as documented",
  "A call that does not reallocate leaves untouched elements at their addresses: insertion and erasure at one end move nothing before that point, and a container with room never reallocates; the segmented containers never move an element on insertion or removal at their ends, on reserve, shrink or growth; small and heap containers keep all element addresses on reserve of no more than they have. "
  "Moving or swapping heap-backed containers with equal or propagating allocators hands the elements over in place.",
  ["histories", "inputs"], "every history and state; every operation documented to keep references valid",
  "tests compare values, not addresses, and a needless relocation is invisible in values",
  ALL, [("growth by adding segments", "grow_storage, grow_storage_front, grow_storage_back of segmented containers"), ("in-place branches", "emplace, insert, erase branches with sufficient room"), ("pointer exchange", "assign_move, initialize_move, swap")],
  [("segment table", "segments keep their place in memory", "data_.segments_first_.. in segmented containers")], ["element addresses before and after each call"])
prop("C18", "Iterators and views traverse exactly the elements",
  "For every container state, iterators (mutable, const, reverse) obey random-access arithmetic: advancing, subtracting, indexing and comparing agree with positions 0..size, across segment boundaries and from any position; begin/end/rbegin/cbegin, nth, index_of, operator[], front, back, at and data() designate exactly the documented elements. "
  "size() and empty() agree with the iteration, max_size() is no smaller than size() for allocators without a limit of their own, and conversions from iterator to const_iterator keep the position.",
  ["inputs", "histories"], "every pair of positions in every layout (segment offset, inline/heap storage)",
  "segment-boundary arithmetic has off-by-one corners that depend on offset and distance",
  ALL + [PRIV], [("normal_iterator, segmented_iterator", "include/sfl/private.hpp"), ("nth, index_of, data, front, back", "each container")],
  [("iterator position", "pointer, or (segment, local pointer)", "segmented_iterator in private.hpp")], ["results of iterator arithmetic and comparison", "values read through every view"])
prop("C19", "Comparison operators and erase/erase_if mean what they say",
  "==, !=, <, >, <=, >= agree with element-wise equality and lexicographic order (for unordered containers == and != with permutation equality), for all pairs of containers; non-member erase and erase_if remove exactly the elements equal to the value or satisfying the predicate, keep the others (in order where the container is ordered) and return the number removed. "
  "Non-member swap does what member swap does.",
  ["inputs"], "every pair of contents (equal, prefix, permutation, different multiplicities); every subset selected by the predicate",
  "permutation and multiplicity cases are only sampled by tests",
  ALL, [("comparison operators", "non-member operators of each container"), ("erase, erase_if", "non-member functions of each container")],
  [], ["returned booleans and counts", "remaining elements"])
prop("C20", "Out-of-range access and impossible sizes are reported, never executed",
  "at() with a bad index or missing key throws std::out_of_range; a request that would need more than max_size() elements (including counts so large that the sum wraps around) throws std::length_error (segmented storage, which is made of whole segments, may use up the segment in which the limit lies), and a failing allocation's exception is passed on. "
  "In each of these cases nothing is leaked or corrupted, and with valid arguments none of these errors is ever raised.",
  ["inputs", "configurations", "fault_sequences"], "every count up to the largest representable, every size near max_size(), every position",
  "tests use a few huge counts; wrap-around and off-by-one at max_size() need an allocator with a small limit",
  [f for f in ALL], [("length checks", "check_size, calculate_new_capacity, calculate_additional_capacity_*, throw_length_error"), ("range checks", "at, throw_out_of_range")],
  [], ["type of the exception", "state after it"])
prop("C21", "Range arguments of every iterator category are consumed exactly once, in order",
  "Constructing, assigning or inserting from [first,last) or an initializer list gives the same result for one-pass, forward, bidirectional and random-access iterators: each element of the range is taken exactly once and in order, one-pass iterators are dereferenced and incremented only as their category allows, and the range itself is not modified. "
  "Move iterators move each element exactly once.",
  ["inputs", "fault_sequences"], "every range length × position × storage state × iterator category, also when the iterator throws",
  "one-pass and multi-pass branches differ; tests exercise few lengths per branch",
  ALL, [("dispatch on iterator category", "is_exactly_input_iterator / is_forward_iterator in private.hpp; assign_range, insert_range, initialize_range overloads")],
  [], ["contents", "dereferences and increments of the iterators"])
prop("C22", "Operations stay within their documented complexity",
  "The number of element constructions, moves, assignments, destructions and comparisons of each call stays within its documented complexity: end insertions and removals are amortised constant, insertion and erasure are linear in the distance to the (nearer, if double-ended) end plus the number of elements, ordered lookups are logarithmic, moves and swaps of heap-backed containers are constant, bulk operations are linear. "
  "Growth is geometric, so n appends cause a number of allocations logarithmic in n (per segment for segmented containers; compact_vector excepted).",
  ["histories", "inputs"], "every history and size",
  "tests check results, not work done; a quadratic path passes every functional test",
  ALL, [("growth factor", "calculate_new_capacity, calculate_additional_capacity_*, grow_storage*"), ("shorter-side shifting", "devector.hpp, segmented_devector.hpp insertion and erasure"), ("binary search", "private.hpp lower_bound/upper_bound")],
  [], ["numbers of element operations, comparisons and allocations per call"])
exec(open(os.path.join(ROOT, "tools", "mkprops_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "mkprops_more.py")) else None

NOTE = ("Explicit TLA+ specification: SflCore (meaning of every call), explored by TLC (SflModel), whose transitions are replayed into the real containers together with seeded random histories; "
        "every recorded execution (contents, addresses, lifetimes, allocations, exceptions after each call) is validated by TLC against the specification (SflTrace). "
        "Complete for the model's small bounds where the budget covers all transitions, sampled beyond; trusts the instrumented element/allocator/iterator types of the harness, g++ and TLC.")
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            p = dict(p); p.pop("_note"); f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/selftest.py",
             checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"], thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                          technique="TLA+ specification: TLC-explored model replayed into the code, recorded executions validated by TLC", level="model_checking",
                          level_note=NOTE + (" " + p["_note"] if p["_note"] else "")) for p in P],
             not_applicable=[], notes="See DESIGN.md. No hooks in /repo: the instrumentation is in the element, allocator, comparator and iterator types of /verif/harness.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
