------------------------------ MODULE FlatTrace ------------------------------
(* Accepts a recorded history of two flat_maps / flat_sets exactly when it is    *)
(* one of sorted unique containers.  The ordering each object uses is a state of  *)
(* the specification, it is never read from the code.                             *)
EXTENDS SortedUnique, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s, ord
vars == <<tid, l, s, ord>>
c == Traces[tid].cfg
ev == Traces[tid].ev
\* TRUE = P: P is a condition to evaluate, not alternatives to explore one by one
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = [k \in 1..2 |-> <<>>] /\ ord = [k \in 1..2 |-> 0]

FindOK(E, o, t) == \* any equivalent entry, the end if there is none
  LET lo == Lo(o, t, E.kk, E.k)
      hi == Hi(o, t, E.kk, E.k) IN
  Len(E.r) = 1 /\ (IF lo = hi THEN E.r[1] = Len(t) ELSE lo <= E.r[1] /\ E.r[1] < hi)

Ctors == {"c_def", "c_vec", "c_range", "c_il"}
Step(E) ==
  LET x == E.o
      y == 3 - E.o
      A == E.s[x].c
      Bc == E.s[y].c IN
  /\ E.op # "Crash"
  /\ CASE E.op \in Ctors -> /\ E.ex = "" /\ ord' = [ord EXCEPT ![x] = E.ord] /\ Bc = s[y]
                            /\ TRUE = BuiltFrom(E.ord, IF E.op = "c_def" THEN <<>> ELSE E.vs, A)
       [] E.op \in {"c_copy", "a_copy"} -> E.ex = "" /\ ord' = [ord EXCEPT ![x] = ord[y]] /\ A = s[y] /\ Bc = s[y]
       [] E.op \in {"c_move", "a_move"} -> E.ex = "" /\ ord' = [ord EXCEPT ![x] = ord[y]] /\ A = s[y]
       [] E.op = "swap" -> E.ex = "" /\ ord' = [ord EXCEPT ![x] = ord[y], ![y] = ord[x]] /\ A = s[y] /\ Bc = s[x]
       [] OTHER -> LET q == Effect(E, ord[x], s[x], c.max) IN
                   /\ ord' = ord /\ Bc = s[y]
                   /\ A = q.c /\ E.ex = q.x
                   /\ CASE E.op \in {"find", "cfind"} -> FindOK(E, ord[x], s[x])
                        [] E.op = "eq" -> E.r = <<B(s[x] = s[y])>>
                        [] OTHER -> E.r = q.r
                   /\ E.op = "obs" => /\ E.fw = s[x] /\ E.cfw = s[x] /\ E.ccfw = s[x] /\ E.rv = RevS(s[x]) /\ E.crv = RevS(s[x])
                                      /\ E.em = (s[x] = <<>>) /\ E.sz = Len(s[x]) /\ E.mx
                                      /\ E.kc # -1 => E.kc = ord[x]
  /\ \A k \in 1..2 : Sorted(ord'[k], E.s[k].c)
  /\ s' = <<E.s[1].c, E.s[2].c>>

Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
