-------------------------------- MODULE OneShot --------------------------------
(* Scope guards and unique functions: holders of at most one callable.            *)
(* A callable: [q |-> kind, id |-> which, v |-> its state, n |-> times it was called] *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == [q |-> -1, id |-> 0, v |-> 0, n |-> 0]
(* ---------------------------------------------------------------- guards *)
\* g[k]: Nothing, or a callable (n = 1: its guard was moved from, it is not called any more)
ByValue == {0, 5, 7, 8}                        \* kinds whose functor is in the guard
Shared == {6}                                  \* the functor is owned by the guard, through a pointer
\* what running a guard's function is seen as; x: the state of the functors outside of guards
Runs(c, x) == CASE c.q = -1 \/ c.n = 1 -> <<>>
                [] c.q = 1 -> <<<<80, x>>>> [] c.q = 2 -> <<<<81, x>>>> [] c.q = 3 -> <<<<90, 0>>>> [] c.q = 4 -> <<<<91, 0>>>>
                [] OTHER -> <<<<c.id, c.v>>>>
\* objects in the ledger: those outside (two), those in guards, moved from or not
Objects(g) == 2 + Cardinality({k \in DOMAIN g : g[k].q \in ByValue}) + Cardinality({k \in DOMAIN g : g[k].q \in Shared /\ g[k].n = 0})
\* local guards in nested scopes, left normally (0), by return (1) or by an exception (2)
RECURSIVE Nested(_, _, _, _, _)
Nested(qs, ids, i, how, x) ==
  IF i > Len(qs) THEN <<<<0, 0>>>>
  ELSE LET inner == Nested(qs, ids, i + 1, how, x) id == ids[i] IN
  CASE qs[i] \in {0, 2, 4, 6} -> inner \o <<<<id, id>>>>
    [] qs[i] = 1 -> inner \o <<<<80, x>>>>
    [] qs[i] = 3 -> inner \o <<<<90, 0>>>>
    [] qs[i] = 5 -> inner \o <<<<id, id>>>> \o (IF how = 2 THEN <<<<-1, 0>>>> ELSE <<>>)
    [] OTHER -> <<<<id, 0>>>> \o inner \o <<<<id, 1>>>>
(* ---------------------------------------------------------------- unique functions *)
NoState == {6, 8, 10, 14}                      \* pointers and references: nothing in the holder to be destroyed
GivesNothing == {7, 13}
Holds(u) == Cardinality({k \in DOMAIN u : u[k].q # -1 /\ u[k].q \notin NoState})
\* the result of a call with x, and what was seen; y: calls of the functor outside
Called(c, x, y) ==
  IF c.q = -1 THEN [ex |-> "badcall", ret |-> 0, seen |-> <<>>]
  ELSE LET id == CASE c.q \in {6, 10} -> 90 [] c.q = 8 -> 91 [] c.q = 14 -> 80 [] OTHER -> c.id
           r == CASE c.q \in {6, 8, 10} -> x [] c.q = 14 -> 80000 + (y + 1) * 100 + x
                  [] c.q \in {15, 16} -> (c.v * 10000) + 100 + x [] OTHER -> (c.v * 10000) + ((c.n + 1) * 100) + x
       IN [ex |-> IF x < 0 THEN "boom" ELSE "", ret |-> IF x < 0 THEN 0 ELSE r, seen |-> <<<<id, x>>>>]
Copies(q) == IF q \in {1, 15, 16} THEN 1 ELSE 0          \* made where the callable was given
=============================================================================
