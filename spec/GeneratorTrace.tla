---------------------------- MODULE GeneratorTrace ----------------------------
EXTENDS Generator, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, x
vars == <<tid, l, x>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ x = Fresh
Step(E) ==
  IF E.op = "End" THEN E.live = 0 /\ E.bad = 0 /\ E.log = KillSlot(x, 0) \o KillSlot(x, 1) \o KillSlot(x, 2) \o KillSlot(x, 3) /\ UNCHANGED x
  ELSE /\ TRUE = Legal(x, E.op, E.g, E.h)
       /\ LET r == Do(x, E.op, E.g, E.h, E.p) IN
          /\ E.out = r.out /\ E.log = r.log /\ E.got = r.got /\ E.bad = 0
          /\ x' = r.x
          /\ E.st = St(r.x)
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
