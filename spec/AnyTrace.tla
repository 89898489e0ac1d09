------------------------------ MODULE AnyTrace ------------------------------
EXTENDS Any, SlotLedger, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s, m
vars == <<tid, l, s, m>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Tracked == {1, 2, 3}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = [k \in 1..3 |-> Empty] /\ m = MemInit
Proj(S) == [k \in 1..3 |-> [t |-> S[k].t, v |-> S[k].v]]
StateOK(S) == \A k \in 1..3 :
   LET a == S[k] IN
   /\ a.ok /\ a.h = (IF a.t = 0 THEN 0 ELSE 1)       \* casts succeed for exactly one type
   /\ a.hv = (a.t # 0) /\ a.bo = a.hv
   /\ (a.bl # 0) = (c.lg /\ a.hv)
\* every tracked object alive is the content of one holder, every block outstanding belongs to one holder
Held(S) == {k \in 1..3 : S[k].t # 0}
MemPost(S, mm) ==
  /\ {x[2] + x[1] * 100000 : x \in mm.live} = {S[k].sl : k \in {k \in 1..3 : S[k].t \in Tracked}}
  /\ Cardinality({S[k].sl : k \in {k \in 1..3 : S[k].t \in Tracked}}) = Cardinality({k \in 1..3 : S[k].t \in Tracked})
  /\ c.lg => /\ {b[1] : b \in mm.blocks} = {S[k].bl : k \in Held(S)}
             /\ Cardinality(mm.blocks) = Cardinality(Held(S))
AllocOK(E) == c.ai => E.s[E.o].al = (IF E.ex # "" THEN E.s[E.o].al ELSE
                 IF E.op \in {"c_al", "c_vala", "c_copya"} THEN E.a ELSE IF E.op = "c_val" THEN 1 ELSE E.s[E.o].al)
Step(E) ==
  LET f == MemFold(m, E.mem, 1) IN
  IF E.op = "end" THEN /\ f.bad = 0 /\ f.m = MemInit /\ E.leak = 0 /\ m' = f.m /\ UNCHANGED s
  ELSE
  /\ f.bad = 0
  /\ TRUE = (StateOK(E.s) /\ Outcome(E, s, Proj(E.s)) /\ MemPost(E.s, f.m) /\ AllocOK(E))
  /\ s' = Proj(E.s) /\ m' = f.m
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
