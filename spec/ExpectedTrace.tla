--------------------------- MODULE ExpectedTrace ---------------------------
EXTENDS Expected, SlotLedger, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s, m
vars == <<tid, l, s, m>>
Cfg(t) == LET k == Traces[t].cfg IN [ref |-> k.ref, tv |-> k.tv, ev |-> k.ev, bh |-> k.bh]
c == Traces[tid].cfg
ev == Traces[tid].ev
Proj(S) == [k \in 1..2 |-> Rec(S[k].h, S[k].v)]
Id(x) == x[1] * 100000 + x[2]
Pool(k) == {k.live[i] : i \in 1..Len(k.live)}
TrackedIn(k, r) == (r.h = 1 /\ k.tt) \/ (r.h = 0 /\ k.te)
MemPost(k, S, mm) == \* exactly the pool and the objects held are alive, and every holder has its own
  LET held == {i \in 1..2 : TrackedIn(k, S[i])} IN
  /\ {Id(x) : x \in mm.live} = Pool(k) \cup {S[i].sl : i \in held}
  /\ Cardinality(mm.live) = Len(k.live) + Cardinality(held)
Pool0(k) == [MemInit EXCEPT !.live = {<<id \div 100000, id % 100000>> : id \in Pool(k)}]
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ LET k == Traces[tid].cfg IN
           /\ s = Proj(k.s0)
           /\ m = MemFold(Pool0(k), k.mem0, 1).m
StateOK(S) == \A k \in 1..2 : S[k].he = 1 - S[k].h /\ S[k].bo = S[k].h
Step(E) ==
  LET f == MemFold(m, E.mem, 1) IN
  IF E.op = "end" THEN /\ f.bad = 0 /\ f.m = Pool0(c) /\ E.leak = 0 /\ m' = f.m /\ UNCHANGED s
  ELSE /\ f.bad = 0
       /\ TRUE = (StateOK(E.s) /\ Outcome(Cfg(tid), E, s, Proj(E.s)) /\ MemPost(c, E.s, f.m) /\ E.pool = <<0, 0, 0>>)
       /\ s' = Proj(E.s) /\ m' = f.m
Started == \A k \in 1..2 : s[k] = Rec(c.bh, 0)
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ (l = 1 => TRUE = (Started /\ MemPost(c, c.s0, m))) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
