------------------------------ MODULE TypesTrace ------------------------------
EXTENDS Types, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Step(E) ==
  CASE E.op = "conv" -> /\ Forbidden(E.f, E.t) => ~E.i /\ ~E.c /\ ~E.a
                        /\ Offered(E.f, E.t) => E.i /\ E.c /\ E.a
    [] E.op = "make" -> E.m = Made(E.f)
    [] E.op = "mem" -> Members(E)
    [] E.op = "truth" -> ~E.i /\ E.c         \* asked, not given: no view or result turns into a number
    [] E.op = "count" -> ~E.i /\ E.c         \* and no number into a container
    [] E.op = "acc" -> E.w = Writable(E.k, E.ew, E.oc)
    [] E.op = "grow" -> E.kept /\ E.copies = 0
    [] OTHER -> FALSE
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ (TRUE = Step(ev[l])) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
