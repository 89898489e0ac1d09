#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
I = "include/itlib/"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": [I + f for f in files],
         "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "small_vector behaves as the standard sequence container",
 "For every element type, every static capacity and revert threshold, and every history of construction, assignment, insertion, erasure, resizing, copying, moving and comparing, the contents, order, size, returned positions and comparison results are those std::vector would give, also when an argument is a reference to one of the container's own elements. "
 "A position or range outside the current contents is rejected with an out-of-range exception that leaves the contents as they were.",
 ["histories", "inputs", "configurations"],
 "all histories of public operations on any number of elements, over element types (trivial, owning, move-only, over-aligned), static capacities >= 1 and every legal revert threshold",
 "The small_vector test drives one scripted history on a few configurations (and is not among the runnable tests here); positions, counts, capacity boundaries and self-referencing arguments multiply without bound.",
 ["small_vector.hpp"],
 [("grow_at / shrink_at splice the elements", "small_vector.hpp:grow_at"), ("assign_fill/assign_copy/assign_move", "small_vector.hpp:assign_fill"), ("operator==", "small_vector.hpp:operator==")],
 [("m_begin,m_end", "current contents", "small_vector.hpp")],
 ["return of every public call"])
prop("C02", "small_vector storage: static buffer, growth, reverting, stability",
 "A small_vector never allocates while its elements fit its static capacity and nothing larger was reserved, never exceeds its reported capacity, moves to allocated memory only when it must, and returns to the static buffer exactly when documented: on clear, erase or pop below the revert threshold, on shrink_to_fit or revert_to_static whenever the elements fit, and never by itself when the threshold is zero. "
 "reserve, shrink_to_fit and revert_to_static keep the contents, reach the documented capacity and report truthfully whether the storage changed. "
 "Operations that fit the current capacity and do not revert keep the elements' addresses, and moving a dynamically stored vector hands over its buffer and leaves the source empty and static.",
 ["histories", "configurations"],
 "all histories of public operations for every pair of static capacity and revert threshold",
 "The rules depend on the combination of size, capacity, threshold and kind of storage reached by a history; tests visit a handful of points and miss e.g. size equal to the static capacity.",
 ["small_vector.hpp"],
 [("choose_data decides the buffer", "small_vector.hpp:choose_data"), ("shrink_to_fit/revert_to_static", "small_vector.hpp:shrink_to_fit"), ("take_impl on move", "small_vector.hpp:take_impl")],
 [("m_begin == static_begin_ptr()", "static storage in use", "small_vector.hpp"), ("m_capacity", "capacity of current buffer", "small_vector.hpp")],
 ["return of every public call", "allocator calls"])
prop("C03", "Vectors with inline storage never leak, double-destroy or misallocate",
 "After every operation on a small_vector or static_vector, exactly the elements in the container are alive: each element slot is constructed before use, destroyed exactly once, and never read, moved from, assigned or destroyed while not alive. "
 "Every block obtained from the allocator is returned exactly once, to an equal allocator and with the size it was requested with, and nothing remains outstanding once the containers are destroyed.",
 ["histories", "configurations"],
 "all histories of public operations, any element type with observable lifetime, any allocator",
 "Tests count constructions and allocations at the end of a few histories; slot-level lifetime errors inside one operation cancel out in the totals.",
 ["small_vector.hpp", "static_vector.hpp"],
 [("construct/destroy pairing while splicing", "small_vector.hpp:grow_at"), ("construct/destroy pairing while splicing", "static_vector.hpp:grow_at"), ("deallocate on buffer change", "small_vector.hpp:shrink_to_fit")],
 [("raw slots", "which slots hold a live element", "small_vector.hpp")],
 ["element special member functions", "allocator allocate/deallocate"])
prop("C04", "Inline-storage vectors stay valid when an element or allocation throws",
 "If constructing, copying or moving an element, or allocating memory, throws during any operation of a small_vector or static_vector, the exception reaches the caller, and every container involved remains valid: its size matches the elements actually alive, nothing leaks or is destroyed twice, and it can be used, refilled and destroyed. "
 "A failed append at the end or a failed allocation for a growing operation leaves the previous elements in place.",
 ["fault_sequences", "histories"],
 "every operation, from every reachable state, with a throw at every element construction, copy, move or allocation inside it (operations which are declared noexcept do not meet throwing moves)",
 "No test throws from an element; the number of fault points times states times operations is far beyond hand-written cases.",
 ["small_vector.hpp", "static_vector.hpp"],
 [("order of bookkeeping and construction", "small_vector.hpp:resize"), ("order of bookkeeping and construction", "static_vector.hpp:push_back")],
 [("m_begin,m_end", "range claimed to hold live elements", "small_vector.hpp")],
 ["return or throw of every public call", "element special member functions"])
prop("C05", "static_vector behaves as a bounded standard sequence container",
 "For every element type and capacity and every history of operations, a static_vector has the contents, order, size, returned positions, comparison and swap results std::vector would give, never allocates and never holds more than its capacity. "
 "An operation whose result would not fit is rejected with an out-of-range exception and leaves the contents unchanged.",
 ["histories", "inputs", "configurations"],
 "all histories of public operations, every capacity, element type and operation that would overflow",
 "The test fills one vector with a scripted history; overflow is possible in every growing operation at every size and position.",
 ["static_vector.hpp"],
 [("capacity checks before growth", "static_vector.hpp:grow_at"), ("splicing", "static_vector.hpp:shrink_at"), ("swap of different sizes", "static_vector.hpp:swap")],
 [("m_size", "number of live elements", "static_vector.hpp")],
 ["return of every public call"])
prop("C06", "pod_vector behaves as the standard sequence container for trivial types",
 "For every trivial element type and every history of construction, assignment, insertion, erasure, resizing, reserving, shrinking, copying, moving, swapping and reinterpretation as another element type, a pod_vector has the contents, order, size and returned positions std::vector would give, where newly exposed elements without a given value are unspecified, also when an argument refers to one of its own elements. "
 "Size never exceeds capacity, growth preserves existing elements and reallocates only when the capacity does not suffice, and operations that report whether they reallocated report truthfully. When the allocator throws, an operation which would only add elements or change the capacity has no effect, and one which replaces the contents leaves a vector which can be used.",
 ["histories", "inputs", "configurations"],
 "all histories of public operations, element sizes and alignments, with any of the supported allocators",
 "Tests run scripted histories on a few sizes; wrong byte counts surface only for particular combinations of size, capacity, position and count.",
 ["pod_vector.hpp"],
 [("prepare_buffer / grow_at / shrink_at with memmove", "pod_vector.hpp"), ("resize / assign fills", "pod_vector.hpp:resize")],
 [("m_begin,m_end,m_capacity", "contents and capacity", "pod_vector.hpp")],
 ["return of every public call"])
prop("C07", "pod_vector uses its allocator correctly and keeps elements aligned",
 "Every block a pod_vector holds was obtained from its allocator, is large enough for the reported capacity, is suitably aligned for the element type, and is released, reallocated or expanded exactly once by an equal allocator, using the aligned or unaligned functions it came from, also when a request for memory ends in an exception; nothing is outstanding once the containers are destroyed. "
 "Only features the allocator declares are used, bytes outside the held block are never touched, and moving or reinterpreting a vector transfers its block without copying.",
 ["histories", "configurations"],
 "all histories of public operations over allocators with and without realloc, in-place expansion and alignment support, and over-aligned elements",
 "Tests count allocator calls on one history for two allocators; mismatched sizes or aligned/unaligned confusion need particular histories and allocator features.",
 ["pod_vector.hpp"],
 [("allocator feature dispatch", "pod_vector.hpp"), ("recast_copy_from/recast_take_from", "pod_vector.hpp:recast_take_from")],
 [("m_begin,m_capacity", "held block", "pod_vector.hpp")],
 ["every allocator call"])
prop("C08", "flat_map is a sorted unique map equal to std::map",
 "After every history of operations and for every strict weak ordering, the entries of a flat_map are strictly sorted by key without equivalent keys, and lookups, insertions, assignments, erasures, bounds, counts and comparisons give what std::map would give, including returned positions and whether an insertion happened, also for heterogeneous lookup and when built from an arbitrary container. "
 "Checked access to a missing key throws out-of-range and changes nothing.",
 ["histories", "inputs", "configurations"],
 "all histories over any keys, mapped types, comparators and underlying containers",
 "Tests use one small scripted history; sortedness and uniqueness are invariants over all histories, keys and comparators.",
 ["flat_map.hpp"],
 [("lower_bound based insert/erase/find", "flat_map.hpp"), ("sort and unique on construction", "flat_map.hpp")],
 [("m_container", "sorted sequence of pairs", "flat_map.hpp")],
 ["return of every public call"])
prop("C09", "flat_set is a sorted unique set equal to std::set",
 "After every history of operations and for every strict weak ordering, the elements of a flat_set are strictly sorted without equivalents, and lookups, insertions, erasures, bounds, counts and comparisons give what std::set would give, including returned positions and whether an insertion happened, also for heterogeneous lookup and when built from or modified through an arbitrary container. "
 "Copying, moving, assigning and swapping sets keeps these guarantees for both sides.",
 ["histories", "inputs", "configurations"],
 "all histories over any elements, comparators and underlying containers",
 "Tests use one small scripted history; sortedness and uniqueness are invariants over all histories, elements and comparators.",
 ["flat_set.hpp"],
 [("lower_bound based insert/erase/find", "flat_set.hpp"), ("sort and unique on construction", "flat_set.hpp")],
 [("m_container", "sorted sequence", "flat_set.hpp")],
 ["return of every public call"])
prop("C10", "dynamic_bitset is an exact, resizable sequence of bits",
 "For every word type and every history of setting, resetting, flipping, filling, resizing, appending, clearing and sub-range copying at any bit offset, a dynamic_bitset reports exactly the bits and the size a plain sequence of booleans would hold. "
 "Whole-set queries (all, any) depend only on the bits inside the size, whatever earlier operations left beyond it, and an operation on a range changes no bit outside that range. If the buffer can't be made large enough for a larger size and throws, resizing, adding a bit and appending have no effect.",
 ["histories", "inputs", "configurations"],
 "all histories, all sizes and offsets relative to word boundaries, all word types, other bitsets or the bitset itself as source",
 "Tests check a few offsets by hand; there are word-bits squared alignments times lengths for copy and append, and stale tail bits depend on history.",
 ["dynamic_bitset.hpp"],
 [("append / copy / resize word arithmetic", "dynamic_bitset.hpp"), ("tail masking in all/any", "dynamic_bitset.hpp")],
 [("m_bits,m_size", "words and bit count", "dynamic_bitset.hpp")],
 ["return of every public call"])
prop("C11", "any holds exactly one value of exactly its type",
 "After every history of construction, assignment, emplacement, copying, moving, swapping and resetting, an any is either empty or owns exactly one live value of the decayed type last stored, equal to the value stored; copies are independent and moving transfers the value. "
 "Type queries and casts succeed exactly for the held type, failing with a bad-cast exception or null otherwise without changing anything, and every contained object is destroyed and its memory returned exactly once through an equal allocator.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all histories over any number of anys, contained types (including throwing and self-referential sources) and allocators",
 "Tests check a scripted history with two or three types; aliasing, self-assignment and throwing copies need specific histories.",
 ["any.hpp"],
 [("reset/emplace/operator=", "any.hpp"), ("any_cast type comparison", "any.hpp:any_cast")],
 [("held object pointer and operations", "current content", "any.hpp")],
 ["return of every public call", "contained objects' special members", "allocator calls"])
prop("C12", "expected holds either a value or an error, never both or neither",
 "For every combination of value and error type (including void and reference values, and value-less errors), and every history of construction, assignment, copying, moving and emplacing, an expected holds exactly one live value or exactly one live error: the one given by the last successful operation. "
 "Truth tests, value, error, fallback values and dereference agree with that alternative; the objects inside are constructed and destroyed exactly once, and an lvalue source is never modified.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all histories over pairs of objects in every state combination, for every specialization",
 "The expected test is scripted (and not runnable here); each specialization has its own four state combinations per assignment and its own object lifetime.",
 ["expected.hpp"],
 [("union handling in constructors and assignment per specialization", "expected.hpp")],
 [("m_has_value and union", "active alternative", "expected.hpp")],
 ["return of every public call", "contained objects' special members"])
prop("C13", "Memory output stream keeps exactly the characters written",
 "For every history of single-character and block writes, seeks, clears, container exchanges and content queries, a memory output stream buffer holds in its container exactly the characters a random-access file would hold, whatever the container's type, growth policy and character type. "
 "A position outside the written content is refused, and a taken container has exactly the written length while the stream continues empty. Copies are independent of what they were copied from, and moving takes the content and the position.",
 ["histories", "inputs", "configurations"],
 "all histories of writes, seeks, clears and takes, over container kinds and character types, including container growth in the middle of a block",
 "Tests write a few strings sequentially; offset bookkeeping matters only for histories mixing seeks, growth and takes.",
 ["mem_streambuf.hpp"],
 [("overflow/xsputn/seekoff/seekpos and the put area", "mem_streambuf.hpp")],
 [("put area pointers and container", "written characters and write position", "mem_streambuf.hpp")],
 ["return of every stream call"])
prop("C14", "Memory input streams deliver exactly their range; redirects restore",
 "For every memory range, character type and history of reads, peeks, putbacks, resets and seeks, a memory input stream buffer yields exactly the characters of its range at the requested positions, reports its position and size exactly, signals end of input exactly at its end, and refuses seeks outside the range, never reading outside it. A limited read wrapper gives the same characters and stream state as the stream it wraps. A redirected wrapper reads from the requested position and, when it ends, the wrapped stream that was in a good state is back at the position it had.",
 ["histories", "inputs", "configurations"],
 "all ranges, all histories of reads and seeks in all directions, all nestings of redirections",
 "Tests read one string forward and seek twice; refusing out-of-range positions and exact end handling hold for every offset.",
 ["mem_streambuf.hpp", "rstream.hpp"],
 [("get area and seekoff/seekpos", "mem_streambuf.hpp"), ("redirect constructor/destructor", "rstream.hpp")],
 [("get area pointers", "range and read position", "mem_streambuf.hpp")],
 ["return of every stream call"])
prop("C15", "Views denote exactly their elements under slicing and iteration",
 "A span, stride span, polymorphic span or memory view obtained by any chain of constructions, conversions, slices and element removals denotes exactly the elements of the underlying memory that the chain describes, with slices clamped to the viewed range, and never another address. "
 "Indexing, first/last, forward and reverse iteration, iterator arithmetic, differences and ordering agree with each other as for a random-access sequence, and writing through a view changes exactly the element denoted.",
 ["inputs", "histories", "configurations"],
 "all base ranges, strides, slice offsets and counts (including out-of-range ones) and chains of them, all iterator positions and differences",
 "Tests slice a few literals; clamping and signed distance errors need offsets at or beyond boundaries and negative directions.",
 ["span.hpp", "stride_span.hpp", "poly_span.hpp", "memory_view.hpp"],
 [("subspan/first/last clamping", "span.hpp:subspan"), ("iterator arithmetic with stride", "stride_span.hpp"), ("iterator arithmetic", "poly_span.hpp"), ("slice", "memory_view.hpp:slice")],
 [("m_begin,m_end / stride", "viewed addresses", "span.hpp")],
 ["return of every public call"])
prop("C16", "Atomic shared pointer storage is linearizable and never loses references",
 "For every number of threads and every interleaving of loads, stores, exchanges and compare-exchanges on a shared-pointer storage, results are those of some sequential order consistent with real time: a load returns the latest stored pointer, and a compare-exchange succeeds only against the pointer currently stored and otherwise reports it. "
 "Every pointee stays alive while the storage or any returned pointer refers to it and is destroyed exactly once afterwards, publication through the storage makes earlier writes visible to readers, and no user code runs inside the storage's critical section, so using the storage from a pointee's destructor cannot block.",
 ["schedules", "histories"],
 "all interleavings of any number of threads and operations, including weak-memory visibility and destructors that use the storage",
 "Tests run a timing-dependent smoke test; races need one of many interleavings and memory-order errors are invisible on this hardware.",
 ["atomic_shared_ptr_storage.hpp"],
 [("spinlock around copies and swaps of the pointer", "atomic_shared_ptr_storage.hpp"), ("release of old values outside the lock", "atomic_shared_ptr_storage.hpp:store")],
 [("stored pointer and lock flag", "current value", "atomic_shared_ptr_storage.hpp")],
 ["invocation and return of each operation", "reference counts", "lock acquire/release"])
prop("C17", "Strong try-recursive mutex: exclusive, recursive, honest try_lock",
 "For every interleaving of threads trying to lock and unlocking, at most one thread owns the mutex at a time, the owner may acquire it again any number of times, and it becomes free exactly after as many unlocks. An attempt fails only if another thread owns the mutex at some moment during the attempt, never spuriously when it is free or owned by the caller, and never blocks on the owner. What one owner wrote before releasing is visible to the next owner.",
 ["schedules", "histories"],
 "all interleavings of any number of threads and nesting depths",
 "Tests check a couple of scripted two-thread situations; exclusion, spurious failures and visibility depend on the schedule.",
 ["mutex.hpp"],
 [("owner id and recursion count around an inner mutex", "mutex.hpp")],
 [("owner, depth", "current owner and nesting", "mutex.hpp")],
 ["invocation and return of lock/try_lock/unlock"])
prop("C18", "Guarded data is reachable only while its lock is held",
 "Data protected by a data mutex is accessible only through a guard that currently holds the underlying mutex, in exclusive mode for mutable access and at least shared mode for read access; every acquisition is released exactly once, in the mode it was acquired, when its guard ends, and moved-from or failed guards hold nothing. "
 "This holds for every interleaving and for mutexes whose locking fails by exception: such a failure acquires nothing and releases nothing.",
 ["schedules", "histories", "fault_sequences"],
 "all histories of locking, trying, moving and dropping guards on any number of threads, over mutex types and lock failures",
 "Tests use one thread and a mutex that never fails; the guard's protocol matters for every history of moves and failures.",
 ["data_mutex.hpp"],
 [("guard constructors, move and destructor", "data_mutex.hpp")],
 [("guard's data pointer and lock", "whether a guard holds the mutex", "data_mutex.hpp")],
 ["calls on the underlying mutex", "truth of guards"])
prop("C19", "Generators yield their sequence exactly, in order, and clean up",
 "A generator delivers exactly the values (or references) its body yields, in order, each once, whether drained through next-calls, ranged iteration or a mixture, runs the body only on demand and never past its end, and delivers an exception thrown by the body to the consumer at that point. "
 "Abandoning, moving, swapping or reassigning generators at any point destroys each suspended body's local state exactly once and keeps the surviving sequence intact.",
 ["histories", "fault_sequences"],
 "all bodies (lengths, exceptions, element types) and all consumer histories, abandoned at every point",
 "The generator test is not runnable here and drains a few bodies; laziness, cleanup and move semantics hold for every prefix of consumption.",
 ["generator.hpp"],
 [("promise yields and coroutine handle ownership", "generator.hpp")],
 [("coroutine handle", "suspended body", "generator.hpp")],
 ["values delivered", "construction and destruction of body locals"])
prop("C20", "Relaxed atomic counters lose no update",
 "For every interleaving of increments, decrements, additions, subtractions, loads and stores by any number of threads, each operation on a relaxed counter acts atomically on the value and returns the value its built-in integer counterpart would, so no update is lost and all returned values fit one total order, with wrap-around for every integer type. Copying or assigning a counter copies its current value and leaves the source unchanged.",
 ["schedules", "histories", "inputs"],
 "all interleavings, integer types and operands, wrap-around included",
 "Tests check single-threaded arithmetic on one type; lost updates need concurrency.",
 ["atomic.hpp"],
 [("forwarding to atomic read-modify-write operations", "atomic.hpp")],
 [("counter value", "current value", "atomic.hpp")],
 ["return of every operation"])
prop("C21", "Container algorithms find and erase exactly what they should",
 "For every container, value and predicate, the find functions return the first matching element (as iterator or pointer, end or null if there is none) and the all/any/none tests give the answer of examining every element. The erasing functions remove exactly the first match or exactly all matches, keep the relative order of the rest and report truthfully what was removed (the value to remove all of not being itself one of the elements).",
 ["inputs", "configurations"],
 "all containers (sequence kinds, const and mutable), contents, values and predicates, including empty containers",
 "Tests use one literal container; which elements match and where (none, all, adjacent, last) is unbounded.",
 ["qalgorithm.hpp"],
 [("thin wrappers around algorithms and erase-remove", "qalgorithm.hpp")],
 None, ["return value and remaining contents"])
prop("C22", "Scope guards, unique functions and owning helpers act exactly once",
 "A scope guard runs its function exactly once when the guard that finally holds it is destroyed, on normal or exceptional exit and however often it was moved, and a unique function object invokes exactly the callable it was last given, whose state is moved, never copied, and destroyed exactly once. Pointer-making helpers construct exactly one object from exactly the given argument with the ownership requested; aliasing pointers share their owner's lifetime and are null when the owner is empty. Pointers derived from an object that lives in shared ownership share its single ownership.",
 ["histories", "inputs"],
 "all histories of creating, moving, calling, resetting and destroying such objects, with normal and exceptional scope exits",
 "Tests check single scripted uses; exactly-once over moves and exceptional exits is a statement about histories.",
 ["sentry.hpp", "ufunction.hpp", "make_ptr.hpp", "shared_from.hpp"],
 [("sentry destructor", "sentry.hpp"), ("move-only wrapper", "ufunction.hpp"), ("make_ptr deduction", "make_ptr.hpp"), ("weak self reference", "shared_from.hpp")],
 None, ["invocations of callables", "object lifetimes, use counts"])
prop("C23", "Time values: calendar conversion, arithmetic and formatting are exact",
 "For every representable second, broken-down UTC time agrees with the proleptic Gregorian calendar and converting it back, including from out-of-range fields, gives the exact second; local time agrees with it by the zone's rules, and any number of threads may convert at once. Arithmetic with durations of any unit, differences and ordering agree with integer seconds. Formatting a broken-down time produces exactly the text the pattern describes, of any length including empty, and always terminates.",
 ["inputs"],
 "all time values, duration units, field values and format patterns",
 "Tests check a couple of dates; the calendar has boundaries everywhere and the formatter's buffer growth depends on the text length.",
 ["time_t.hpp"],
 [("gmtime/localtime wrappers and strftime growth loop", "time_t.hpp")],
 None, ["return values"])
prop("C24", "String view utilities compare and strip exactly",
 "For all strings over any characters, prefix and suffix tests hold exactly when the characters agree, and removing all occurrences of a prefix or suffix strips exactly the maximal whole repetitions of it and nothing else, leaving the string unchanged for an empty or absent one. A view made from a pair of iterators denotes exactly the characters between them, also for an empty range, and every result denotes memory of its input only.",
 ["inputs"],
 "all strings and patterns over any characters, including empty, overlapping and embedded-null ones",
 "Tests check a few literals; boundary strings are unbounded.",
 ["strutil.hpp"],
 [("string_view arithmetic", "strutil.hpp")],
 None, ["return values"])
prop("C25", "Stream-built exceptions carry exactly the composed message and type",
 "Throwing through the stream-style helper raises exactly one exception of exactly the requested type at the end of the full expression, whose message is the concatenation of everything streamed, in order and in the stream's formatting, including nothing at all. Streamed values are only read, and each is formatted exactly once.",
 ["inputs", "configurations"],
 "all sequences of streamed values and exception types",
 "Tests check two messages.",
 ["throw_ex.hpp"],
 [("throwing destructor with string stream", "throw_ex.hpp")],
 None, ["exception type and message"])
prop("C26", "Polymorphic allocators route every request to their resource",
 "Every allocation made through a polymorphic allocator, its copies and conversions, directly as bytes, objects or elements, or by containers using it, reaches the memory resource it was created with, with the exact byte count and alignment of the requested objects, and every deallocation returns to the same resource with the same byte count and alignment. Creating an object constructs exactly one object with the given arguments in memory from the resource, deleting it destroys it once and returns the memory, and if construction throws the memory is returned and the exception propagates.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all histories of allocating, creating, deleting, copying and converting allocators over any resources and object types, including throwing constructors",
 "The pmr_allocator tests are not runnable here and check a few calls.",
 ["pmr_allocator.hpp"],
 [("allocate/deallocate forwarding", "pmr_allocator.hpp")],
 [("resource pointer", "resource of the allocator", "pmr_allocator.hpp")],
 ["calls on the memory resource"])
prop("C27", "transparent_umap finds and inserts by any equivalent key as an unordered map",
 "After every history of operations a transparent_umap holds exactly the entries std::unordered_map would, no two with equivalent keys, and each entry stays where it is until erased. When its hash and equality are transparent, insertion without overwriting (try_emplace, operator[]) and checked access with a value of another type find the entry whose key is equivalent to it, or insert one with the key made from it, or report out-of-range and change nothing; they construct a key only when inserting, and leave the arguments alone when not. "
 "When they are not transparent, only keys and what converts to them are accepted, with the same results.",
 ["histories", "inputs", "configurations"],
 "all histories over any key, mapped, hash and equality types, transparent or not, with any equivalence the two agree on and any collisions",
 "The transparent_umap test only includes the header; hits, misses, kinds of key and collisions combine freely.",
 ["transparent_umap.hpp"],
 [("lookup by another type, then insertion", "transparent_umap.hpp:try_emplace"), ("checked access", "transparent_umap.hpp:at"), ("when the overloads take part", "transparent_umap.hpp:enable_if_tr")],
 [("inherited table", "the entries", "transparent_umap.hpp")],
 ["return of every public call"])
prop("C28", "Misuse is reported as configured, and correct use never is",
 "Whatever error handling and bounds checks are configured, and with or without assertions, calls within bounds are never reported and do the same. "
 "Reaching an element by a position (at, []) outside of a small_vector, static_vector, span, stride_span, poly_span or memory_view fails an assertion in debug builds unless that header's bounds checks are disabled, and is not reported otherwise. "
 "Growing a static_vector beyond its capacity, passing a small_vector's insertion or erasure a position outside of its range, and reaching an absent key by flat_map's at are reported as each header's setting says - by std::out_of_range, by an assertion in debug builds, or by an assertion there and the exception in release builds - before anything is changed.",
 ["configurations", "inputs"],
 "all combinations of the documented settings of the headers, debug and release builds, all calls at all sizes, positions and counts including the largest",
 "The tests are built in one configuration (the default) and never misuse a view; the other settings are not even compiled.",
 ["small_vector.hpp", "static_vector.hpp", "span.hpp", "stride_span.hpp", "poly_span.hpp", "memory_view.hpp", "flat_map.hpp"],
 [("error handling setting", "static_vector.hpp:I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF"), ("error handling setting", "small_vector.hpp:I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF"), ("bounds checks", "span.hpp:I_ITLIB_SPAN_BOUNDS_CHECK"), ("bounds checks", "memory_view.hpp:I_ITLIB_MEMORY_VIEW_BOUNDS_CHECK"), ("absent keys", "flat_map.hpp:I_ITLIB_THROW_FLAT_MAP_OUT_OF_RANGE")],
 [("size() and capacity", "what is within bounds", "static_vector.hpp")],
 ["return of every public call", "failed assertions"])
prop("C29", "Utilities and type traits tell the truth, and what is ruled out does not compile",
 "owner_from_member returns the object the given member belongs to; bit_cast gives a value with the same bytes; force_move moves and never copies. "
 "is_noop_convertible holds of two scalar types exactly when casting from the first to the second never changes a value's representation, and is_instantiation_of exactly of instantiations of the template. "
 "What a header rules out at compile time (force_move of a const object, bit_cast between sizes, pod_vector of non-trivial elements, a small_vector threshold beyond its capacity plus one, counters that are not integral, copies of what is only movable) does not compile, and what it admits does.",
 ["inputs", "configurations"],
 "all member pointers of all owner types, all representations of all trivial types, all pairs of types",
 "The tests check one owner, one float and a few pairs of types; the traits quantify over types and the casts over representations.",
 ["utility.hpp", "type_traits.hpp", "pod_vector.hpp", "small_vector.hpp", "expected.hpp", "atomic.hpp"],
 [("owner_from_member", "utility.hpp:owner_from_member"), ("bit_cast", "utility.hpp:bit_cast"), ("force_move", "utility.hpp:force_move"), ("is_noop_convertible", "type_traits.hpp:is_noop_convertible"), ("is_instantiation_of", "type_traits.hpp:is_instantiation_of")],
 None,
 ["return of every public call", "the compiler's verdict"])
prop("C30", "Types copy, move and convert into views only as they may",
 "Containers and any copy and move, and their moves are noexcept unless a move has to move elements in place whose moves may throw; views copy freely; expected, ufunction, generator and lock guards only move; mutexes, data_mutex and atomic_shared_ptr_storage do neither. "
 "Growing a vector of any of them whose element moves don't throw copies no element. "
 "A view is made only of objects with elements of the same type, never grants writing to elements which could only be read, and is never made of a temporary container that isn't const; spans of what stays are made implicitly of every contiguous container, and a view of mutable elements converts to that of const ones. "
 "Elements reached through a const container, stride_span or memory_view, and through any const iterator, are const, while a const span gives what its elements are. "
 "Nothing turns into a number or a bool, and no number into a container, without being asked to.",
 ["configurations", "inputs"],
 "all pairs of holder types and element types, all ways to reach an element, all library types over elements that copy, only move, or throw when moved",
 "What must not compile, and what is declared noexcept, is not run by any test: a conversion too many, or a copy where a move was meant, passes all of them.",
 ["span.hpp", "stride_span.hpp", "memory_view.hpp", "poly_span.hpp", "small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "flat_set.hpp", "expected.hpp", "ufunction.hpp", "any.hpp", "dynamic_bitset.hpp", "data_mutex.hpp", "generator.hpp", "mutex.hpp", "atomic_shared_ptr_storage.hpp"],
 [("conversions to span", "span.hpp:class span"), ("make_span", "span.hpp:make_span"), ("conversion to const_memory_view", "memory_view.hpp:const_memory_view"), ("noexcept moves", "static_vector.hpp:static_vector"), ("noexcept moves", "small_vector.hpp:small_vector"), ("explicit operator bool", "expected.hpp:operator bool")],
 None,
 ["standard type traits of the types", "return of every public call"])
prop("C31", "Every header is a library of its own",
 "Every header compiles with nothing of the library but itself, with every language version from the one it documents on, also with every member of its classes instantiated, included any number of times, together with all the others in any order, and in any number of units of a program. "
 "It leaves no macro defined whose name isn't the library's.",
 ["configurations"],
 "all headers, language versions, orders of inclusion and programs made of several units",
 "The tests include most headers after the test framework's, once, in one unit, with one compiler: what a header forgets to include or to guard is hidden.",
 ["any.hpp", "atomic.hpp", "atomic_shared_ptr_storage.hpp", "data_mutex.hpp", "dynamic_bitset.hpp", "expected.hpp", "flat_map.hpp", "flat_set.hpp", "generator.hpp", "make_ptr.hpp", "mem_streambuf.hpp", "memory_view.hpp", "mutex.hpp", "pmr_allocator.hpp", "pod_vector.hpp", "poly_span.hpp", "qalgorithm.hpp", "rstream.hpp", "sentry.hpp", "shared_from.hpp", "small_vector.hpp", "span.hpp", "static_vector.hpp", "stride_span.hpp", "strutil.hpp", "tep_vector.hpp", "throw_ex.hpp", "time_t.hpp", "transparent_umap.hpp", "type_traits.hpp", "ufunction.hpp", "utility.hpp"],
 [("include guard", "any.hpp:any"), ("includes", "dynamic_bitset.hpp:#include"), ("inline functions", "throw_ex.hpp:throw_ex")],
 None,
 ["the compilers' and the linker's verdict"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
