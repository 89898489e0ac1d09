-------------------------------- MODULE StrUtil --------------------------------
(* Strings as sequences of characters of any value; results as slices <<offset, length>> of the input. *)
EXTENDS Integers, Sequences
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
(* the number of whole repetitions of p at the front, at the back *)
RepsF(s, p) ==
  LET m == Len(s) \div Len(p)
      F[k \in 0..m] == IF k < m /\ SubSeq(s, k * Len(p) + 1, (k + 1) * Len(p)) = p THEN F[k + 1] ELSE k IN F[0]
RepsB(s, p) ==
  LET m == Len(s) \div Len(p)
      F[k \in 0..m] == IF k < m /\ SubSeq(s, Len(s) - (k + 1) * Len(p) + 1, Len(s) - k * Len(p)) = p THEN F[k + 1] ELSE k IN F[0]
StripF(s, p) == IF p = <<>> THEN <<0, Len(s)>> ELSE LET n == RepsF(s, p) * Len(p) IN <<n, Len(s) - n>>
StripB(s, p) == IF p = <<>> THEN <<0, Len(s)>> ELSE <<0, Len(s) - RepsB(s, p) * Len(p)>>
Slice(s, r) == SubSeq(s, r[1] + 1, r[1] + r[2])
=============================================================================
