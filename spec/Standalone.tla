----------------------------- MODULE Standalone -----------------------------
(* Headers as libraries of their own: what each needs is the standard library of    *)
(* the language version its documentation names.  Everything a header defines is     *)
(* inline, and its text counts once in a unit.                                        *)
EXTENDS Integers, Sequences, FiniteSets
Min == [any |-> 11, atomic |-> 11, atomic_shared_ptr_storage |-> 11, data_mutex |-> 11, dynamic_bitset |-> 11, expected |-> 11, flat_map |-> 11,
        flat_set |-> 11, generator |-> 20, make_ptr |-> 11, mem_streambuf |-> 11, memory_view |-> 11, mutex |-> 11, pmr_allocator |-> 17,
        pod_vector |-> 11, poly_span |-> 11, qalgorithm |-> 11, rstream |-> 11, sentry |-> 11, shared_from |-> 11, small_vector |-> 11, span |-> 11,
        static_vector |-> 11, stride_span |-> 11, strutil |-> 17, tep_vector |-> 11, throw_ex |-> 11, time_t |-> 11, transparent_umap |-> 20,
        type_traits |-> 11, ufunction |-> 11, utility |-> 11]
Headers == DOMAIN Min
Works(hs, std) == \A h \in hs : h \in Headers /\ Min[h] <= std
\* a unit: a sequence of headers, as included.  What it ends up defining, and how often, if what a
\* header defines is Def(h) and headers in G are guarded, those in I define inline only
Uses(u) == {u[i] : i \in 1..Len(u)}
Times(u, h, guarded) == LET n == Cardinality({i \in 1..Len(u) : u[i] = h}) IN IF guarded /\ n > 1 THEN 1 ELSE n
UnitOK(u, G) == \A h \in Uses(u) : Times(u, h, h \in G) <= 1
LinkOK(us, I) == \A h \in UNION {Uses(us[i]) : i \in 1..Len(us)} : h \in I \/ Cardinality({i \in 1..Len(us) : h \in Uses(us[i])}) <= 1
=============================================================================
