----------------------------- MODULE FileInTrace -----------------------------
EXTENDS FileIn, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == <<tid, l, s>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Fresh(<<>>)
Wraps(E) == CASE E.op = "new" -> <<>> [] E.op = "xend" -> SubSeq(s.w, 1, Len(s.w) - 1)
              [] OTHER -> LET q == Effect(E, s) IN q.g.w
\* unget at the beginning fails with the stream going bad: position and state of such histories are not followed
UngetFails(E) == E.op = "unget" /\ ~s.fail /\ s.p = 0
After(E) == [d |-> IF E.op \in {"new", "reset"} THEN E.data ELSE s.d, p |-> E.p, eof |-> E.eof, fail |-> E.fail, w |-> Wraps(E)]
Step(E) == /\ E.op # "Crash"
           /\ TRUE = (IF UngetFails(E) THEN E.bad /\ E.fail /\ E.p = 0
                      ELSE Outcome(E, s, After(E)))
           /\ TRUE = (E.wok /\ E.same /\ E.goff = E.p /\ E.size = Len(After(E).d) /\ E.nw = Len(Wraps(E)))
           /\ s' = After(E)
Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
