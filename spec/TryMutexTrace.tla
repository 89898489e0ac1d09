---------------------------- MODULE TryMutexTrace ----------------------------
EXTENDS TryMutex, TLC, Json, IOUtils
H == INSTANCE HB
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ss, h
vars == <<tid, l, ss, h>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ss = {Fresh} /\ h = H!Fresh
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {{Lin(x, t) : t \in {u \in Threads : CanLin(x, u)}} : x \in S} IN IF T = S THEN S ELSE Close(T)
Step(E) ==
  CASE E.op = "Start" -> {Fresh}
    [] E.op = "inv" -> {Call(x, E.t, E.f) : x \in ss}
    [] E.op = "ret" -> {Return(x, E.t) : x \in {y \in Close(ss) : CanReturn(y, E.t, E.res)}}
    [] E.op = "use" -> {[x EXCEPT !.n = E.v] : x \in {y \in Close(ss) : y.o = E.t /\ E.v = y.n + 1}}
    [] E.op = "many" -> {[x EXCEPT !.d = @ + E.n] : x \in {y \in ss : y.o = E.t /\ E.ok = E.n}}
    [] E.op = "less" -> {[x EXCEPT !.d = @ - E.n] : x \in {y \in ss : y.o = E.t /\ E.n < y.d}}
    [] E.op = "stress" -> {x \in ss : E.want = E.value /\ E.bad = 0 /\ E.free}
    [] E.op \in {"m", "Go", "Join", "End"} -> ss
    [] OTHER -> {}
Order(E) ==
  CASE E.op = "Start" -> h' = H!Fresh
    [] E.op = "m" -> H!Allowed(E, h) /\ h' = H!Access(E, h)
    [] E.op = "Go" -> h' = H!Go(h)
    [] E.op = "Join" -> h' = H!JoinAll(h)
    [] OTHER -> UNCHANGED h
Next == \/ l <= Len(ev) /\ Order(ev[l]) /\ ss' = Step(ev[l]) /\ ss' # {} /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
