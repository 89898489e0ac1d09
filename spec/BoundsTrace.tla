----------------------------- MODULE BoundsTrace -----------------------------
(* Accepts a recorded history exactly when every call ended as Bounds says.        *)
EXTENDS Bounds, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == <<tid, l, s>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = (IF c.kind = "map" THEN Rep(c.cap, -1) ELSE <<>>)
Step(e) ==
  /\ e.op # "Crash"
  /\ Meant(c, e, s)
  /\ LET x == Outcome(c, e, s) IN /\ e.out = x.o /\ e.s = x.s /\ (x.o = "ok" => e.r = x.r)
                                  /\ e.z = (IF c.kind = "map" THEN Len(SelectSeq(x.s, LAMBDA v : v # -1)) ELSE Len(x.s))
                                  \* the objects are those held
                                  /\ c.kind \in Vecs => e.live = Len(x.s)
  /\ s' = e.s
Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
