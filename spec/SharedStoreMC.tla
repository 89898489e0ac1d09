---------------------------- MODULE SharedStoreMC ----------------------------
(* Whole operations one after another by two threads: every transition is replayed *)
(* on the real code. Pointees are told apart but not named: View renames them.       *)
EXTENDS SharedStore, TLC, Json
CONSTANTS Regs2
VARIABLES s, op
vars == <<s, op>>
Flat == <<s.s>> \o s.R[1] \o s.R[2]
Canon == [k \in 1..Len(Flat) |-> IF Flat[k] = 0 THEN 0 ELSE CHOOSE j \in 1..k : Flat[j] = Flat[k] /\ \A i \in 1..(j - 1) : Flat[i] # Flat[k]]
Rng == {Flat[k] : k \in 1..Len(Flat)}
NewId == CHOOSE n \in 1..9 : n \notin Rng /\ \A j \in 1..(n - 1) : j \in Rng
Init == s = Fresh(TRUE) /\ op = <<"init">>
Whole3(t, f, r, q, n, e, ok) ==
  LET a == Call(s, t, f, r, q, n, e)
      b == IF f \in Linear THEN Lin(a, t, ok) ELSE a
      z == Return(b, t) IN
  /\ s' = [z EXCEPT !.dead = {}, !.made = {}]
  /\ op' = <<f, t - 1, r, q>>
  /\ TRUE = (f \in Linear => ok \in MayOk(a, t))
  /\ TRUE = (Alive(a) /\ Alive(b) /\ Alive(z) /\ (\A p \in Held(s) : p = 0 \/ p \in Held(a)))
Whole(t, f, r, q, n) == \E ok \in BOOLEAN : (f \in {"cas", "ncas"} \/ ok) /\ Whole3(t, f, r, q, n, 0, ok)
Next == \E t \in 1..2 :
  \/ \E r \in 0..(Regs2 - 1) : Whole(t, "load", r, 0, 0) \/ Whole(t, "store", r, 0, 0) \/ Whole(t, "mstore", r, 0, 0) \/ Whole(t, "drop", r, 0, 0)
                              \/ Whole(t, "new", r, 0, NewId) \/ Whole(t, "ncas", r, -1, NewId) \/ Whole(t, "nxchg", -1, r, NewId)
  \/ Whole(t, "nstore", -1, 0, NewId)
  \/ \E r, q \in 0..(Regs2 - 1) : Whole(t, "xchg", r, q, 0) \/ Whole(t, "cas", r, q, 0) \/ Whole(t, "dup", r, q, 0)
Spec == Init /\ [][Next]_vars
Inv == s.P[1] = <<>> /\ s.P[2] = <<>>
Emit == PrintT("EDGE " \o ToJson(<<Canon, op', Canon'>>))
=============================================================================
