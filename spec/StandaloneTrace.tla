--------------------------- MODULE StandaloneTrace ---------------------------
EXTENDS Standalone, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Set(s) == {s[i] : i \in 1..Len(s)}
Step(E) ==
  CASE E.op = "alone" -> Works({E.h}, E.std) => E.ok                      \* with no other header of the library at hand
    [] E.op = "twice" -> Works({E.h}, E.std) => E.ok
    [] E.op = "whole" -> Works({E.h}, E.std) => E.ok                      \* every member of its classes
    [] E.op = "order" -> Works(Set(E.hs), E.std) => E.ok
    [] E.op = "link" -> Works(Set(E.hs), E.std) => E.ok
    [] E.op = "macros" -> E.foreign = <<>>                                \* names that aren't the library's, left defined
    [] OTHER -> FALSE
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ (TRUE = Step(ev[l])) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
