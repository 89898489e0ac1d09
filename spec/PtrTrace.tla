-------------------------------- MODULE PtrTrace --------------------------------
EXTENDS Ownership, SlotLedger, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s, w, owns, m
vars == <<tid, l, s, w, owns, m>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = [k \in 1..3 |-> Null] /\ w = [k \in 1..2 |-> Null] /\ owns = {} /\ m = MemInit
Kinds(log, k) == Cardinality({i \in 1..Len(log) : log[i][1] = k})
Derived == {"sft", "sf", "wft", "wf"}
Step(E) ==
  LET f == MemFold(m, E.mem, 1)
      made == E.op \in {"mks", "mku", "own"} /\ E.ex = ""
      can == s[E.j].o \in owns                       \* the pointer's owner is an object which can be asked for more
  IN
  /\ f.bad = 0 /\ m' = f.m
  /\ IF E.op = "end" THEN f.m = MemInit /\ E.leak = 0 /\ UNCHANGED <<s, w, owns>> ELSE
     /\ E.did = (E.op \in Derived => can)
     /\ s' = (CASE made -> [s EXCEPT ![E.k] = [o |-> E.id, p |-> 1]]
                [] E.op = "alias" -> [s EXCEPT ![E.k] = Aliased(s[E.j], E.p)]
                [] E.op = "raw" -> [s EXCEPT ![E.k] = Raw(s[E.j], E.p)]
                [] E.op = "copy" -> [s EXCEPT ![E.k] = s[E.j]]
                [] E.op = "move" /\ E.k # E.j -> [s EXCEPT ![E.k] = s[E.j], ![E.j] = Null]
                [] E.op = "reset" -> [s EXCEPT ![E.k] = Null]
                [] E.op = "sft" /\ can -> [s EXCEPT ![E.k] = From(s[E.j], E.s[E.k][2])]
                [] E.op = "sf" /\ can -> [s EXCEPT ![E.k] = From(s[E.j], E.p)]
                [] E.op = "lock" -> [s EXCEPT ![E.k] = Lock(s, w[E.j])]
                [] OTHER -> s)
     /\ w' = (CASE E.op = "wft" /\ can -> [w EXCEPT ![E.k] = From(s[E.j], 4)]
                [] E.op = "wf" /\ can -> [w EXCEPT ![E.k] = From(s[E.j], E.p)]
                [] E.op = "wreset" -> [w EXCEPT ![E.k] = Null]
                [] OTHER -> w)
     /\ owns' = ((IF E.op = "own" THEN owns \cup {E.id} ELSE owns) \cap (Alive(s') \cup {w'[k].o : k \in 1..2}))
     /\ TRUE = (E.ok /\ \A k \in 1..3 : E.s[k][1] = s'[k].o /\ E.s[k][2] = s'[k].p /\ E.s[k][3] = Count(s', k))
     /\ TRUE = (E.op = "sft" /\ can => E.s[E.k][2] \in {1, 4})
     /\ TRUE = (\A k \in 1..2 : E.w[k][1] = w'[k].o /\ E.w[k][2] = (IF w'[k].o \in Alive(s') THEN 0 ELSE 1))
     /\ TRUE = ({E.al[i] : i \in 1..Len(E.al)} = Alive(s') /\ Cardinality(f.m.live) = Cardinality(Alive(s')))
     \* exactly one object is made, from exactly the argument
     /\ TRUE = (E.op \in {"mks", "mku"} =>
                IF E.fz = 1 THEN E.ex = "boom" /\ Kinds(E.mem, 1) = 1
                ELSE E.ex = "" /\ E.got = E.v /\ E.arg = (IF E.q \in {2, 3} THEN -7 ELSE E.v) /\ Kinds(E.mem, 1) = 2 /\ Kinds(E.mem, 4) = 1)
     /\ TRUE = (E.op = "own" => E.got = E.v /\ Kinds(E.mem, 1) = 1)
     /\ TRUE = (E.op = "none" => E.ex = "bbb")
     /\ TRUE = (E.op = "misc" => E.got3 = <<E.v + 1, E.v, 30 + (E.v % 50), 2 * E.v + 1, E.v, E.v>>)
     /\ TRUE = (~(E.op \in {"mks", "mku", "own", "none"}) => E.ex = "" /\ Kinds(E.mem, 1) = 0)
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
