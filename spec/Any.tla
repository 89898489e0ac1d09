--------------------------------- MODULE Any ---------------------------------
(* Holders of at most one value of any type.  s[k] = [t |-> type, v |-> value];  *)
(* t = 0 is empty.  Outcome(e, s, q) says whether an operation e that started in  *)
(* s may end in q with result e.r, exception e.ex and source value e.src.        *)
EXTENDS Integers, Sequences
MoveOnly == {3, 6}
Copyable(t) == t \notin MoveOnly
Empty == [t |-> 0, v |-> -1]
CtorOps == {"c_def", "c_al", "c_copy", "c_copyn", "c_copya", "c_move", "c_val", "c_vala"}
CopyOps == {"c_copy", "c_copyn", "c_copya", "a_copy", "cfrom"}
SelfCopies == {"a_self", "cfrom_self"}
MoveOps == {"c_move", "a_move"}
ValOps == {"c_val", "c_vala", "a_val", "empl"}
Taking(e) == e.op = "cast" /\ e.md \in {5, 6}
ReadsHeld(e) == e.op \in {"cast", "set"}
\* the kind of failure an operation must end in, if nothing was made to fail
Refusal(e, s) ==
  CASE e.op \in CopyOps /\ ~Copyable(s[e.p].t) -> "badcast"
    [] e.op \in SelfCopies /\ ~Copyable(s[e.o].t) -> "badcast"
    [] ReadsHeld(e) /\ s[e.o].t # e.t -> "badcast"
    [] OTHER -> ""
\* contents after success; NoVal where the value is unspecified
NoVal == -1000
Target(e, s) ==
  CASE e.op \in {"c_def", "c_al", "reset"} -> Empty
    [] e.op \in CopyOps \cup MoveOps \cup {"swap"} -> s[e.p]
    [] e.op \in ValOps \cup {"set"} -> [t |-> e.t, v |-> e.v]
    [] Taking(e) -> [t |-> e.t, v |-> NoVal]
    [] OTHER -> s[e.o]
Other(e, s) ==
  CASE e.op \in MoveOps -> Empty
    [] e.op = "swap" -> s[e.o]
    [] OTHER -> s[e.p]
Result(e, s) ==
  CASE e.op = "empl" -> 1 [] e.op = "cast" -> s[e.o].v [] e.op = "null" -> 1 [] OTHER -> -1
Same(want, got) == want.t = got.t /\ (want.v = NoVal \/ want.v = got.v)

Rest(e, s, q) == \A k \in DOMAIN s : k \notin {e.o, e.p} => Same(s[k], q[k])
Outcome(e, s, q) ==
  /\ Rest(e, s, q)
  /\ \/ /\ e.ex = "" /\ Refusal(e, s) = ""
        /\ Same(Target(e, s), q[e.o]) /\ Same(Other(e, s), q[e.p])
        /\ e.r = Result(e, s) /\ e.src = e.v
     \/ /\ e.ex # ""                   \* failed: the target is as it was or empty, a held value is never changed
        /\ \/ e.ex = Refusal(e, s)
           \/ e.ex = "boom" /\ e.fz > 0 /\ e.op \in CopyOps \cup SelfCopies \cup ValOps \cup {"a_own", "cast"}
           \/ e.ex = "alloc" /\ e.fz < 0 /\ e.op \in CopyOps \cup SelfCopies \cup ValOps \cup {"a_own"}
        /\ Same(s[e.p], q[e.p])
        /\ e.src = e.v
        /\ IF e.op \in CtorOps THEN q[e.o] = Empty
           ELSE Same(s[e.o], q[e.o]) \/ (q[e.o] = Empty /\ ~ReadsHeld(e) /\ Refusal(e, s) = "")
                \/ (q[e.o] = Empty /\ e.op \in CopyOps)
=============================================================================
