---------------------------- MODULE StandaloneMC ----------------------------
(* Programs of any units including any headers in any order, any number of times:  *)
(* all of them are well formed exactly if every header is guarded and inline, and   *)
(* it is enough to look at one header twice in a unit and in two units.             *)
EXTENDS Standalone, TLC
CONSTANTS Hs, Len0, NUnits
VARIABLES us, G, I
vars == <<us, G, I>>
Init == us = <<<<>>>> /\ G \in SUBSET Hs /\ I \in SUBSET Hs
Include == \E h \in Hs : /\ Len(us[Len(us)]) < Len0
                         /\ us' = [us EXCEPT ![Len(us)] = Append(@, h)]
NewUnit == Len(us) < NUnits /\ us' = Append(us, <<>>)
Next == (Include \/ NewUnit) /\ UNCHANGED <<G, I>>
Spec == Init /\ [][Next]_vars
Good == (\A i \in 1..Len(us) : UnitOK(us[i], G)) /\ LinkOK(us, I)
Inv == /\ (G = Hs /\ I = Hs) => Good
       /\ \A h \in Hs : /\ (h \in G) <=> UnitOK(<<h, h>>, G)
                        /\ (h \in I) <=> LinkOK(<<<<h>>, <<h>>>>, I)
       /\ ((\A h \in Hs : UnitOK(<<h, h>>, G) /\ LinkOK(<<<<h>>, <<h>>>>, I)) => Good)
=============================================================================
