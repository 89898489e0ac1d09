import c_vec, c_pod, c_flat, c_bits, c_any, c_expected, c_ostream, c_istream, c_view, c_conc, c_gen, c_small, c_umap, c_bounds, c_util, c_types
CHECKS = {
    "C01": lambda c: c_vec.run(c, "SEQ"),
    "C02": lambda c: c_vec.run(c, "STORE"),
    "C03": lambda c: c_vec.run(c, "MEM", static=True),
    "C04": lambda c: c_vec.run(c, "EXC", static=True),
    "C05": lambda c: c_vec.run(c, "SEQ", small=False, static=True),
    "C06": lambda c: c_pod.run(c, "SEQ"),
    "C07": lambda c: c_pod.run(c, "MEM"),
    "C08": lambda c: c_flat.run(c, True),
    "C09": lambda c: c_flat.run(c, False),
    "C10": lambda c: c_bits.run(c),
    "C11": lambda c: c_any.run(c),
    "C12": lambda c: c_expected.run(c),
    "C13": lambda c: c_ostream.run(c),
    "C14": lambda c: c_istream.run(c),
    "C15": lambda c: c_view.run(c),
    "C16": lambda c: c_conc.run_store(c),
    "C17": lambda c: c_conc.run_mutex(c),
    "C18": lambda c: c_conc.run_dmutex(c),
    "C19": lambda c: c_gen.run(c),
    "C20": lambda c: c_conc.run_counter(c),
    "C21": lambda c: c_small.run_qalgo(c),
    "C22": lambda c: c_small.run_own(c),
    "C23": lambda c: c_small.run_time(c),
    "C24": lambda c: c_small.run_str(c),
    "C25": lambda c: c_small.run_throw(c),
    "C26": lambda c: c_small.run_pmr(c),
    "C27": lambda c: c_umap.run(c),
    "C28": lambda c: c_bounds.run(c),
    "C29": lambda c: c_util.run(c),
    "C30": lambda c: c_types.run(c),
    "C31": lambda c: c_types.run_alone(c),
}
T = "TLA+ specification model-checked with TLC; edge-covering behaviours of it and seeded histories replayed on the real code, recorded traces validated by TLC"
TT = "TLA+ specification; seeded and exhaustive short histories run on the real code, every recorded trace validated against the specification by TLC"
META = {
    "C01": (T, "Every transition of the two-vector model (lengths to 4, capacities to 5, five buffer configurations) and random histories over 20 instantiations; each recorded state compared by the trace specification."),
    "C02": (T, "As C01, with the storage rules (buffer identity, capacity, threshold) as the obligation; the model proves its algorithm obeys them."),
    "C03": (T, "Every construction, destruction, assignment, read, allocation and release of instrumented elements and allocators is a micro event of the slot ledger specification."),
    "C04": ("TLA+ specification with faults; a throw at every construction/allocation of every operation, recorded traces validated by TLC", "Faults at each of the first constructions (copies and moves included, of elements of five kinds) of each operation from several states and at random points of random histories."),
    "C05": (TT, "Every operation at every fill level of eight instantiations plus random histories; refusals and unchanged contents judged by the specification."),
    "C06": (T, "Every transition of the two-vector model over realloc- and expand-allocators, and random histories over 19 instantiations with four vectors of two element types."),
    "C07": (T, "As C06; every allocator call is an event of the block ledger in the specification, bytes outside held blocks are poisoned."),
    "C08": (T, "Every transition of a two-object model over three orderings (lookups by bisection proved equal to their meaning) and random histories over eight instantiations."),
    "C09": (T, "As C08 for sets, eight instantiations."),
    "C10": ("TLA+ specification of the word-level algorithms checked with TLC to refine the bit sequence from every pair of small bitsets; seeded and boundary-exhaustive histories run on the real code, every trace validated by TLC", "Eleven instantiations over four word sizes; all operations around word boundaries with arbitrary bits beyond the size; random histories."),
    "C11": (T, "Every transition of a two-holder model over a heap of blocks with allocators of two identities and failing constructions and allocations; random histories over five allocator kinds and eight held types, with object and block ledgers."),
    "C12": (T, "Every transition of a model of the flagged union (objects constructed only in empty storage, destroyed only as what they are) for every kind of type pair; random histories over 22 type pairs with an object ledger and failing constructions."),
    "C13": (T, "Every transition of a model of the buffer over a container with any growth policy, which refines a random-access file, and of two buffers copied and moved into each other; random histories over ten container and character types, including blocks longer than 16 bits count."),
    "C14": (T, "Every transition of a model of the three-pointer buffer, which refines reading a range, with stream state and nested wrappers; random histories over memory and string streams of four character types."),
    "C15": (T, "Both representations of a view in machine arithmetic, with sizes of any magnitude, are proved to cut the slice meant; every transition is replayed on nine instantiations, all pairs of positions of small views, and random histories with writes through every path."),
    "C16": ("TLA+ specification of the storage and of its lock-based algorithm checked with TLC over all interleavings; bounded exhaustive and random schedules of the real code under a deterministic scheduler and real threads, every history validated by TLC", "Every interleaving of the algorithm's steps for two threads in the model; on the real code, all schedules up to two or three preemptions of random programs (results by linearization, lifetimes by references held, accesses by happens-before), every sequential transition, and stress with reference accounting under the thread sanitizer in C++14 and C++20."),
    "C17": ("TLA+ specification of the mutex and of its algorithm checked with TLC over all interleavings; bounded exhaustive and random schedules of the real code under a deterministic scheduler and real threads, every history validated by TLC", "Every interleaving of the algorithm's steps for three threads in the model; on the real code every sequential transition, all schedules up to three preemptions of random programs, depths around every power of two up to 70000, and stress under the thread sanitizer."),
    "C18": ("TLA+ specification of guards over a mutex, model-checked with TLC; every transition of it and schedules of random programs run on the real code with an instrumented, throwing mutex, every trace validated by TLC", "Every transition of a model of three guards of two threads (six kinds, refused, failing, moved, ended in any order) replayed; random programs of up to four threads under a deterministic scheduler, each access to the data and each request to the mutex judged."),
    "C19": (T, "Every transition of a model of two generators over six bodies (locals, nested generators, exceptions, abandoned at any point, moved, swapped, assigned) replayed; random programs over six value kinds with two compilers; what the body does, and when, is compared with the specification's log."),
    "C20": ("TLA+ specification of counters by digits, model-checked with TLC; every transition of a one-byte counter, bounded exhaustive schedules of random programs and real threads run on the real code, every history validated by TLC", "Every operation from every value of three one-byte types; fourteen integer types in sequence, under a deterministic scheduler (all schedules up to four preemptions, results by linearization) and under stress with the final value accounted for."),
    "C21": (T, "Every call on every sequence up to four elements over three keys, on twelve containers, and random long sequences; elements carry tags so that the specification tells which of equal ones was found or kept."),
    "C22": (T, "Every transition of models of guards, of unique functions over a heap, and of strong and weak pointers over counted control blocks, replayed; every nesting of up to three scoped guards with three kinds of exits, all pairs of seventeen kinds of callables, and random histories, with an object ledger, in C++11, C++14 and C++17 with two compilers."),
    "C23": ("TLA+ specification of the calendar, of local time and of text formatting over integers of any magnitude, checked with TLC; calls on boundary, seeded random and out-of-range values run on the real code, every trace validated by TLC", "The model walks all 146097 days of a calendar cycle, proving the closed forms which the trace specification uses; real conversions over the whole range of std::tm, four zones, durations of seventeen kinds, every conversion of a pattern, texts of every length around the buffer sizes, and several threads at once under the thread sanitizer."),
    "C24": (T.split(";")[0] + "; every call on short strings and seeded long ones run on the real code, every trace validated by TLC", "All strings up to six characters with all affixes up to three over two characters, random strings of any characters with repeated, partial and aliasing affixes, views from seven kinds of iterators, in exactly sized memory under the address sanitizer."),
    "C25": (T, "The helper among other exceptions in flight is proved never to end the program; every transition of the stream's formatting state and random streams are thrown as eight exception types from normal code, handlers and destructors during unwinding, nested to depth three; message, type and evaluation order judged by the specification."),
    "C26": (T, "Every transition of a model of two allocators over two resources (requests of every kind, refused, overflowing, with throwing constructors, returned in any order) replayed in C++17 and C++20 with two compilers; random histories with eight kinds of containers; every call of a resource is an event of the ledger in the specification."),
    "C27": (T, "Every transition of a hash table model (searched by keys of other types, refining a map of entries) replayed; random histories over nine instantiations, with transparent, half transparent and plain hashes, equivalence coarser than equality, colliding hashes and values that cannot be copied or constructed, with two compilers."),
    "C28": (T, "Every call at every length, within and out of bounds, of two vectors, five views and a map, under each of the reports the configurations can give; every such transition is replayed in sixteen builds covering every error handling of both vectors, with and without assertions and bounds checks, in C++11 to C++20."),
    "C29": ("TLA+ specification of casts over representations and of addresses, model-checked with TLC; every pair of types and owner, sampled representations, and probes of what compiles, run on the real code and validated by TLC", "All pairs of 40 types (with casts of sample values), 27 templates' instances against nine templates, 30 members of eight owner types in arrays, nineteen pairs of types for bit_cast over edge and random bytes, and 78 uses which compile or not, with two compilers."),
    "C30": ("TLA+ specification of holders and conversions between them, model-checked with TLC; the compilers' verdict on all pairs of types, and growing vectors of them, recorded from the real headers and validated by TLC", "Chains of up to three conversions between every kind of holder are proved to widen no rights and to outlive no temporary, and vectors to copy only what may throw. All pairs of 17 kinds of holders with four element types, temporaries included; special members of 48 types; 208 paths to an element; vectors of ten types grown by two compilers."),
    "C31": ("TLA+ specification of programs made of units including headers, model-checked with TLC; the verdict of two compilers on every header alone, in every language version, validated by TLC", "All programs of two units with up to three includes of three headers; every header (32) alone in a directory, included twice, with every member of its classes instantiated, in three language versions by two compilers; shuffled orders of all; two units with all of them linked; macros left behind."),
}
NA = {}
