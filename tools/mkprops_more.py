prop("C23", "Violated preconditions are asserted in debug mode and nothing else is",
  "With assertions enabled (NDEBUG not defined), a call that violates a documented precondition stops the program through assert: positions and hints outside cbegin()..cend(), erasing at end() or with a reversed range, indexing, nth and index_of beyond the documented bound, front/back/pop on an empty container, static containers asked to hold more than capacity() elements or to insert when full(), swap of containers with unequal non-propagating allocators. "
  "A call whose preconditions hold never trips an assertion.",
  ["inputs", "histories", "configurations"], "every call with an argument just outside its precondition, from every small state, every iterator category and overload",
  "the tests only make valid calls, so a missing or weakened assertion is never noticed",
  ALL + [PRIV], [("SFL_ASSERT", "include/sfl/private.hpp and the head of every checked member function")],
  [], ["whether the program stops inside the call", "normal completion of valid calls"])
prop("C24", "SFL_NO_EXCEPTIONS changes how errors end, and nothing else",
  "Compiled with SFL_NO_EXCEPTIONS (and exceptions switched off in the compiler), with or without NDEBUG, every container keeps the documented meaning of all calls: the same contents, results, lifetimes and capacities. "
  "Where an exception would be thrown by the library (at() out of range or with a missing key, a size beyond max_size()) the program is aborted instead of continuing, and it is aborted in no other case.",
  ["configurations", "inputs"], "every call from every small state, in both assertion modes",
  "the test suite is never built in this configuration",
  ALL + [PRIV], [("SFL_TRY, SFL_CATCH, SFL_RETHROW", "include/sfl/private.hpp"), ("throw_length_error, throw_out_of_range", "include/sfl/private.hpp")],
  [], ["contents and results", "whether the program stops"])
prop("C25", "Elements are copied only where the caller hands over something to copy",
  "As long as moving an element cannot fail, what a container does for itself never copies one: emplacing, inserting or appending an rvalue, making room, growing, reserving and shrinking, default resizing, erasing in any form, moving a container (with an allocator of any kind) and exchanging two containers only move elements; types that can only be moved can therefore be kept in it, and keep their values and lifetimes like all others. "
  "Calls that are given a const object, a count and a value, or a range copy no more than what they were given.",
  ["histories", "inputs", "configurations"], "every call from every small state and storage layout, with and without growth, inline and on the heap, equal and unequal allocators",
  "tests compare contents, which a copy in place of a move leaves the same; only particular branches (growth, unequal allocators, inline storage) would copy",
  ALL + [PRIV], [("move_if_noexcept, make_move_iterator, uninitialized_move_a", "include/sfl/private.hpp and its uses in every container")],
  [], ["number of copy constructions and copy assignments within each call"])
prop("C26", "Reading a container changes nothing, so any number of threads may read it at once",
  "While no other call runs, any number of threads may call the const member functions of one container, the accessors that count as const (begin, end, front, back, data, find, at, nth, operator[] of sequences and the like), compare it or copy from it: none of these calls writes to the container object or to memory it owns, not even to put back what was there before, and none of those that do not copy allocates. "
  "Each reader therefore gets the answer it would get alone, whatever the schedule.",
  ["schedules", "histories", "inputs"], "every const call in every small state and storage layout, inline and on the heap, each writing nothing, hence every interleaving of readers",
  "a write that is undone, or a position remembered inside the container, leaves every sequential test content; only a particular interleaving of threads shows it",
  ALL + [PRIV], [("const member functions and non-const accessors", "include/sfl/*.hpp")],
  [], ["writes to the container object and its storage while a const call runs", "allocations by const calls"])
prop("C27", "No call with valid arguments has undefined behaviour",
  "A call whose preconditions hold reads and writes only memory that is the container's own or belongs to an object passed to it: not the bytes before or after a block or the container object, not memory it has already returned, no matter how short or long the inserted range is or where in its storage the content lies; forms no pointer or iterator that lies outside its storage in doing so, dereferences no null or misaligned pointer, overflows no signed number. "
  "This holds for element memory and for what the container keeps about it (segment tables, iterators), also in calls that fail and in the clean-up after them.",
  ["inputs", "histories", "fault_sequences"], "every call from every small state and layout, every length of range, with and without failures",
  "a stray access to memory next to the container usually changes no visible result; the tests are not built with sanitizers, and only particular lengths and layouts stray",
  ALL + [PRIV], [("segmented_iterator arithmetic", "include/sfl/private.hpp"), ("segment tables", "grow_storage*, shrink_storage of the segmented containers"), ("positions computed for insertion and erasure", "insert_range, insert_fill_n, erase")],
  [], ["memory accesses and arithmetic of every call, judged by the address and undefined-behaviour sanitizers, which are told the bounds of the blocks", "whether a call stops the program"])
