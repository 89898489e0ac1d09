--------------------------- MODULE SharedStoreTrace ---------------------------
(* ss: every state the storage can be in, given what was seen so far. A history is *)
(* rejected when none is left.                                                       *)
EXTENDS SharedStore, TLC, Json, IOUtils
H == INSTANCE HB
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ss, h
vars == <<tid, l, ss, h>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ss = {Fresh(TRUE)} /\ h = H!Fresh
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {UNION {{Lin(x, t, ok) : ok \in MayOk(x, t)} : t \in {u \in Threads : CanLin(x, u)}} : x \in S} IN IF T = S THEN S ELSE Close(T)
Closed == Close(ss)
Step(E) == \* the states after an event
  CASE E.op = "Start" -> {Fresh(TRUE)}
    [] E.op = "set" -> {[x EXCEPT !.R[E.u][E.r + 1] = E.p, !.made = @ \cup ({Owner(E.p)} \ {0})] : x \in {y \in ss : E.p >= 0 /\ Owner(E.p) \notin y.dead}}
    [] E.op = "clear" -> {[x EXCEPT !.R[E.u][E.r + 1] = 0] : x \in ss}
    [] E.op = "gone" -> {[x EXCEPT !.gone = TRUE] : x \in ss}
    [] E.op = "inv" -> {Call(x, E.t, E.f, E.r, E.q, E.n, E.e) : x \in ss}
    [] E.op = "ret" -> {Return(x, E.t) : x \in {y \in Closed : CanReturn(y, E.t) /\ E.res = Result(Top(y, E.t)) /\ (E.regs # <<>> => E.regs = Regs(y, E.t))}}
    [] E.op = "dtor" -> {[x EXCEPT !.dead = @ \cup {E.p}] : x \in {y \in Closed : E.p \notin y.dead /\ E.p \notin Held(y)}}
    [] E.op = "End" -> {x \in ss : x.dead = 1..E.made}
    [] E.op = "stress" -> {x \in ss : E.died = E.made /\ E.twice = 0 /\ E.stale = 0 /\ E.bad = 0 /\ E.dup = 0 /\ E.lost = 0}
    [] E.op \in {"m", "Go", "Join"} -> ss
    [] OTHER -> {}
Order(E) ==
  CASE E.op = "Start" -> h' = H!Fresh
    [] E.op = "m" -> H!Allowed(E, h) /\ h' = H!Access(E, h)
    [] E.op = "Go" -> h' = H!Go(h)
    [] E.op = "Join" -> h' = H!JoinAll(h)
    [] OTHER -> UNCHANGED h
Next == \/ l <= Len(ev) /\ Order(ev[l]) /\ ss' = Step(ev[l]) /\ ss' # {} /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
