----------------------------- MODULE CounterTrace -----------------------------
EXTENDS Counter, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ss
vars == <<tid, l, ss>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ss = {Fresh(c.w)}
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {{Lin(x, t) : t \in {u \in Threads : CanLin(x, u)}} : x \in S} IN IF T = S THEN S ELSE Close(T)
Step(E) ==
  CASE E.op = "Start" -> {Fresh(c.w)}
    [] E.op = "made" -> {[x EXCEPT !.V[E.c] = E.want] : x \in {y \in ss : E.got = E.want}}
    [] E.op = "inv" -> {Call(x, E.t, E.f, E.c, E.d, E.n) : x \in ss}
    [] E.op = "ret" -> {Return(x, E.t) : x \in {y \in Close(ss) : CanReturn(y, E.t, E.res)}}
    [] E.op = "final" -> {x \in ss : E.v = x.V}
    [] E.op = "stress" -> {x \in ss : E.got = E.want /\ E.dup = 0}
    [] E.op \in {"m", "Go", "Join", "End"} -> ss
    [] OTHER -> {}
Next == \/ l <= Len(ev) /\ ss' = Step(ev[l]) /\ ss' # {} /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
