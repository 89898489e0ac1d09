---------------------------- MODULE FileOutTrace ----------------------------
EXTENDS FileOut, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s, o   \* the current buffer and the other one
vars == <<tid, l, s, o>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = File /\ o = File
\* the written length is only visible in the end: it follows from the file
Seen(x, n) == [d |-> IF n > Len(x.pk) THEN <<-1>> ELSE SubSeq(x.pk, 1, n), p |-> x.p, bad |-> x.bad, fail |-> x.fail]
After(E) == Seen(E, CASE E.op \in {"new", "clear", "get", "mc", "am"} -> 0
                      [] E.op = "sw" -> Len(o.d)
                      [] OTHER -> Max(Len(s.d), E.p))
Other(E) == Seen(E.o, IF E.op \in CopyOps \cup {"sw"} THEN Len(s.d) ELSE Len(o.d))
Step(E) == /\ E.op # "Crash"
           /\ TRUE = (Pair(c.lim, E, s, o, After(E), Other(E)) /\ E.good = ~E.fail /\ E.o.good = ~E.o.fail)
           /\ s' = After(E) /\ o' = Other(E)
Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
