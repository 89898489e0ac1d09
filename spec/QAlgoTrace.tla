------------------------------ MODULE QAlgoTrace ------------------------------
EXTENDS QAlgo, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == <<tid, l, s>>
ev == Traces[tid].ev
(* What a predicate is applied to: each element once, in order, up to the one which decides; all of them, in any order, when all are erased. *)
Until(x) == LET o == IF x.op = "all" THEN "none" ELSE x.op
                f == IF x.op = "all" THEN (IF \A i \in 1..Len(s) : Match(s[i], x.op, x.v) THEN 0 ELSE CHOOSE i \in 1..Len(s) : ~Match(s[i], x.op, x.v) /\ \A j \in 1..(i - 1) : Match(s[j], x.op, x.v))
                     ELSE First(s, o, x.v, 1) IN
            [i \in 1..(IF f = 0 THEN Len(s) ELSE f) |-> s[i][1]]
Count(q, k) == Cardinality({i \in 1..Len(q) : q[i] = k})
Twice == {"qfindif", "pfindif", "all", "any", "none"}      \* called on the constant container first
SeenOK(x) == CASE x.op = "erase1if" -> x.seen = Until(x)
              [] x.op = "eraseallif" -> Len(x.seen) = Len(s) /\ \A k \in {x.seen[i] : i \in 1..Len(s)} : Count(x.seen, k) = Cardinality({i \in 1..Len(s) : s[i][1] = k})
              [] x.op \in Twice -> LET u == Until(x) IN x.seen = u \o u
              [] OTHER -> x.seen = <<>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = <<>>
Step(E) ==
  IF E.op = "set" THEN s' = E.st /\ E.bad = 0
  ELSE LET r == Do(s, E.op, E.v) IN E.res = r[1] /\ E.cres = r[1] /\ E.st = r[2] /\ E.bad = 0 /\ TRUE = SeenOK(E) /\ s' = r[2]
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
