---------------------------- MODULE DataMutexTrace ----------------------------
EXTENDS DataMutex, TLC, Json, IOUtils
H == INSTANCE HB
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, x, h
vars == <<tid, l, x, h>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ x = Fresh /\ h = H!Fresh
Rights == [U |-> "mut", CU |-> "const", TU |-> "mut", TCU |-> "const", S |-> "const", TS |-> "const"]
Step(E) ==
  CASE E.op = "Start" -> x' = Fresh
    [] E.op = "made" -> ~x.made /\ E.got = E.want /\ x' = [x EXCEPT !.made = TRUE, !.val = E.got]
    [] E.op = "inv" -> (CASE E.f = "acq" -> CanAcquire(x, E.t, E.k, E.g) /\ x' = Acquire(x, E.t, E.k, E.g)
                          [] E.f = "end" -> CanEnd(x, E.t, E.g) /\ x' = End(x, E.t, E.g)
                          [] E.f = "move" -> CanMove(x, E.t, E.g, E.h) /\ x' = Move(x, E.t, E.g, E.h))
    [] E.op = "mx" -> TRUE = CanAsk(x, E.t, E.c, E.res) /\ x' = Ask(x, E.t, E.c, E.res)
    [] E.op = "ret" -> TRUE = CanReturn(x, E.t, E.holds, E.exc) /\ x' = Return(x, E.t, E.holds)
    [] E.op = "has" -> x.G[E.g] # <<>> /\ E.holds = x.G[E.g][1].held /\ E.tells /\ UNCHANGED x
    [] E.op = "get" -> TRUE = CanAccess(x, E.t, E.g, FALSE) /\ E.v = x.val /\ UNCHANGED x
    [] E.op = "put" -> TRUE = CanAccess(x, E.t, E.g, TRUE) /\ E.old = x.val /\ x' = [x EXCEPT !.val = E.v]
    [] E.op = "rights" -> E.guards = Rights /\ ~E.copyable /\ E.movable /\ ~E.bare /\ ~E.constmut /\ UNCHANGED x
    [] E.op = "End" -> TRUE = Free(x) /\ UNCHANGED x
    [] E.op \in {"m", "Go", "Join"} -> UNCHANGED x
    [] OTHER -> FALSE /\ UNCHANGED x
Order(E) ==
  CASE E.op = "Start" -> h' = H!Fresh
    [] E.op = "m" -> H!Allowed(E, h) /\ h' = H!Access(E, h)
    [] E.op = "Go" -> h' = H!Go(h)
    [] E.op = "Join" -> h' = H!JoinAll(h)
    [] OTHER -> UNCHANGED h
Next == \/ l <= Len(ev) /\ Order(ev[l]) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
