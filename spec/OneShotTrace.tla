------------------------------ MODULE OneShotTrace ------------------------------
(* Recorded histories of guards (s) and unique functions (u). *)
EXTENDS OneShot, SlotLedger, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, h, x, m
vars == <<tid, l, h, x, m>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ h = [k \in 1..3 |-> Nothing] /\ x = 0 /\ m = [live |-> {<<0, 1>>, <<0, 2>>}, blocks |-> {}]
InitU == tid \in 1..Len(Traces) /\ l = 1 /\ h = [k \in 1..3 |-> Nothing] /\ x = 0 /\ m = [live |-> {<<0, 1>>}, blocks |-> {}]
Made(E) == [q |-> E.q, id |-> E.id, v |-> E.v, n |-> 0]
\* guards
SStep(E) ==
  LET f == MemFold(m, E.mem, 1) IN
  /\ f.bad = 0 /\ m' = f.m
  /\ CASE E.op = "end" -> f.m.live = {} /\ UNCHANGED <<h, x>>
       [] E.op = "last" -> /\ E.calls = Runs(h[1], x) \o Runs(h[2], x) \o Runs(h[3], x) /\ Cardinality(f.m.live) = 2 /\ h' = [k \in 1..3 |-> Nothing] /\ UNCHANGED x
       [] OTHER ->
          /\ E.did = (CASE E.op = "new" -> h[E.k].q = -1 [] E.op = "drop" -> h[E.k].q # -1
                        [] E.op = "move" -> c.mv /\ E.k # E.j /\ h[E.k].q = -1 /\ h[E.j].q # -1 [] OTHER -> TRUE)
          /\ h' = (IF ~E.did THEN h ELSE
                   CASE E.op = "new" -> [h EXCEPT ![E.k] = Made(E)]
                     [] E.op = "drop" -> [h EXCEPT ![E.k] = Nothing]
                     [] E.op = "move" -> [h EXCEPT ![E.k] = h[E.j], ![E.j].n = 1]
                     [] OTHER -> h)
          /\ x' = (IF E.op = "poke" THEN E.v ELSE x)
          /\ TRUE = (E.calls = (CASE E.op = "drop" /\ E.did -> Runs(h[E.k], x) [] E.op = "nest" -> Nested(E.qs, E.ids, 1, E.how, x) [] OTHER -> <<>>))
          /\ TRUE = (E.ex = (IF E.op = "nest" /\ E.how = 2 THEN "boom" ELSE ""))
          /\ TRUE = (Cardinality(f.m.live) = Objects(h'))
          /\ TRUE = (E.cp = 0 \/ (E.op = "new" /\ E.q = 8) \/ (E.op = "move" /\ h[E.j].q = 8))        \* a functor which may not be moved
SNext == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ SStep(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
         \/ l > Len(ev) /\ UNCHANGED vars
\* unique functions: a source which was moved from is empty, or, if there is nothing in it to be moved, may be as it was
Left(E, k) == IF E.b[k] = 1 THEN h[k] ELSE Nothing
UStep(E) ==
  LET f == MemFold(m, E.mem, 1) IN
  /\ f.bad = 0 /\ m' = f.m
  /\ IF E.op = "end" THEN f.m.live = {} /\ E.leak = 0 /\ E.calls = <<>> /\ UNCHANGED <<h, x>> ELSE
     /\ h' = (CASE E.op \in {"c", "a"} -> [h EXCEPT ![E.k] = IF E.q \in GivesNothing THEN Nothing ELSE Made(E)]
                [] E.op \in {"c_def", "c_null", "a_null"} -> [h EXCEPT ![E.k] = Nothing]
                [] E.op \in {"c_move", "a_move"} /\ E.k # E.j -> [h EXCEPT ![E.k] = h[E.j], ![E.j] = Left(E, E.j)]
                [] E.op = "swap" -> [h EXCEPT ![E.k] = h[E.j], ![E.j] = h[E.k]]
                [] E.op = "call" /\ h[E.k].q # -1 -> [h EXCEPT ![E.k].n = @ + 1]
                [] OTHER -> h)
     /\ x' = (IF E.op = "call" /\ h[E.k].q = 14 THEN x + 1 ELSE x)
     /\ TRUE = (E.same /\ \A k \in 1..3 : E.b[k] = (IF h'[k].q = -1 THEN 0 ELSE 1))
     /\ TRUE = (IF E.op # "call" THEN E.ex = "" /\ E.calls = <<>>
                ELSE LET r == Called(h[E.k], E.x, x) IN E.ex = r.ex /\ E.ret = r.ret /\ E.calls = r.seen)
     /\ TRUE = (E.op = "sig" => E.got = <<E.v + 1, E.v + 1, E.v, 0, 2 * E.v, 0, 1, 2 * E.v, 1, 0>>)
     /\ TRUE = (E.cp = (IF E.op \in {"c", "a"} THEN Copies(E.q) ELSE 0))
     /\ TRUE = (Cardinality(f.m.live) = 1 + Holds(h'))
UNext == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ UStep(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
         \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
