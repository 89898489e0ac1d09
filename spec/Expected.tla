------------------------------ MODULE Expected ------------------------------
(* Values-or-errors: s[k] = [h |-> 1 with a value, 0 with an error; v |-> which].  *)
(* c describes the pair of types: ref, tv (void value), ev (void error), bh (what   *)
(* the driver puts in place of an object whose construction failed).               *)
EXTENDS Integers, Sequences
NoVal == -1000
CtorOps == {"c_def", "c_unexp", "c_val", "c_err", "c_move", "c_copy"}
Throwing == {"c_def", "c_unexp", "a_unexp", "c_val", "a_val", "c_err", "a_err", "c_copy", "a_copy", "a_self", "emplace", "vor"}
V(c, h, v) == IF (h = 1 /\ c.tv) \/ (h = 0 /\ c.ev) THEN 0 ELSE v
Rec(h, v) == [h |-> h, v |-> v]
MovedFrom(c, r) == Rec(r.h, IF (r.h = 1 /\ (c.ref \/ c.tv)) \/ (r.h = 0 /\ c.ev) THEN r.v ELSE NoVal)
RvalueFallback(e) == e.op = "vor" /\ e.md \in {3, 4, 5, 6, 7, 9}
Target(c, e, s) ==
  LET x == s[e.o]
      y == s[3 - e.o] IN
  CASE e.op = "c_def" -> Rec(1, 0)
    [] e.op \in {"c_unexp", "a_unexp", "clear"} -> Rec(0, 0)
    [] e.op \in {"c_val", "a_val", "emplace"} -> Rec(1, V(c, 1, e.v))
    [] e.op \in {"c_err", "a_err"} -> Rec(0, V(c, 0, e.v))
    [] e.op \in {"c_move", "a_move", "c_copy", "a_copy"} -> y
    [] e.op = "a_selfm" -> MovedFrom(c, x)
    [] RvalueFallback(e) -> IF x.h = 1 THEN MovedFrom(c, x) ELSE x
    [] e.op = "take" -> MovedFrom(c, x)
    [] e.op = "set" -> Rec(x.h, e.v)
    [] OTHER -> x
Other(c, e, s) == IF e.op \in {"c_move", "a_move"} THEN MovedFrom(c, s[3 - e.o]) ELSE s[3 - e.o]
Result(c, e, s) ==
  CASE e.op = "vor" -> IF s[e.o].h = 1 THEN s[e.o].v ELSE e.v
    [] e.op \in {"get", "take"} -> s[e.o].v
    [] OTHER -> -1
Same(want, got) == want.h = got.h /\ (want.v = NoVal \/ want.v = got.v)
Outcome(c, e, s, q) ==
  \/ /\ e.ex = ""
     /\ Same(Target(c, e, s), q[e.o]) /\ Same(Other(c, e, s), q[3 - e.o])
     /\ e.r = Result(c, e, s) /\ e.src = e.v
  \/ /\ e.ex = "boom" /\ e.fz > 0 /\ e.op \in Throwing
     /\ Same(s[3 - e.o], q[3 - e.o])
     /\ CASE e.op \in CtorOps -> q[e.o] = Rec(c.bh, 0)
          [] e.op = "emplace" -> q[e.o] = Rec(0, 0) \/ q[e.o] = s[e.o]
          [] e.op \in {"a_copy", "a_self"} -> q[e.o].h = s[e.o].h   \* the value's own assignment decides the rest
          [] OTHER -> q[e.o] = s[e.o]
=============================================================================
