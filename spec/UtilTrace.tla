------------------------------ MODULE UtilTrace ------------------------------
EXTENDS Util, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Step(E) ==
  CASE E.op = "own" -> /\ E.addr = E.i * E.sz + E.off            \* the member handed in is that of owner i
                       /\ E.res = OwnerAt(E.addr, E.off) /\ E.res = E.i * E.sz /\ E.tag = E.i /\ E.same
    [] E.op = "bits" -> E.b = E.a /\ Len(E.a) = E.n /\ E.num = (IF E.n = 2 THEN E.a[1] + 256 * E.a[2] ELSE -1)
    [] E.op = "noop" -> /\ E.r = Noop(E.f, E.t) /\ E.v = E.r
                        /\ E.cast => (E.r <=> E.same)
    [] E.op = "inst" -> E.r = (E.m = E.y) /\ E.v = E.r
    [] E.op = "ident" -> E.r
    [] E.op = "move" -> /\ E.copies = 0 /\ E.got = E.val /\ E.self
                        /\ E.moves = (IF E.k = 4 THEN 0 ELSE 1)
                        /\ E.left = (IF E.k = 4 THEN E.val ELSE IF E.k = 2 THEN -1 ELSE E.gone)
    [] E.op = "null" -> E.r
    [] E.op = "compile" -> E.ok = Admits(E)
    [] OTHER -> FALSE
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
