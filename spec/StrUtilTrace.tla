----------------------------- MODULE StrUtilTrace -----------------------------
EXTENDS StrUtil, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Step(E) ==
  LET p == IF E.al # <<>> THEN SubSeq(E.s, E.al[1] + 1, E.al[1] + E.al[2]) ELSE E.p IN
  CASE E.op = "sw" -> E.res = Starts(E.s, p)
    [] E.op = "ew" -> E.res = Ends(E.s, p)
    [] E.op = "rpa" -> E.at = StripF(E.s, p)
    [] E.op = "rsa" -> E.at = StripB(E.s, p)
    [] E.op = "view" -> E.at[2] = E.n /\ (E.n # 0 => E.at[1] = E.o)
    [] OTHER -> FALSE
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
