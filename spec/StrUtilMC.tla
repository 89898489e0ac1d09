------------------------------- MODULE StrUtilMC -------------------------------
(* Stripping one occurrence at a time ends where the maximal whole repetitions end. *)
EXTENDS StrUtil, TLC
CONSTANTS Ls, Lp, Chars
VARIABLES s, p, cut, back
vars == <<s, p, cut, back>>
Strs(n) == UNION {[1..k -> Chars] : k \in 0..n}
Init == s \in Strs(Ls) /\ p \in Strs(Lp) /\ cut = s /\ back = s
Next == \/ p # <<>> /\ Starts(cut, p) /\ cut' = SubSeq(cut, Len(p) + 1, Len(cut)) /\ UNCHANGED <<s, p, back>>
        \/ p # <<>> /\ Ends(back, p) /\ back' = SubSeq(back, 1, Len(back) - Len(p)) /\ UNCHANGED <<s, p, cut>>
Spec == Init /\ [][Next]_vars
Inv == /\ (p = <<>> \/ ~Starts(cut, p)) => cut = Slice(s, StripF(s, p))
       /\ (p = <<>> \/ ~Ends(back, p)) => back = Slice(s, StripB(s, p))
       /\ p # <<>> => ~Starts(Slice(s, StripF(s, p)), p) /\ ~Ends(Slice(s, StripB(s, p)), p)
=============================================================================
