------------------------------- MODULE SeqVec -------------------------------
(* The sequence a vector-like container denotes, and the effect of every      *)
(* operation on it: what std::vector would do.  Positions are 0-based.        *)
(* An operation is a record e with e.op and the arguments it uses:            *)
(*   p, q positions   n count   i index of an own element   v a value         *)
(*   vs the values inserted / assigned                                        *)
EXTENDS Integers, Sequences

InsertAt(s, p, t) == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
EraseAt(s, p, q)  == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
Fill(n, v)        == [k \in 1..n |-> v]
ResizeTo(s, n, v) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Fill(n - Len(s), v)
Rev(s)            == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
B2I(b)            == IF b THEN 1 ELSE 0
IsSubseq(s, t)    == \* s is what remains of t after removing some elements
  LET RECURSIVE go(_, _)
      go(i, j) == IF i > Len(s) THEN TRUE ELSE IF j > Len(t) THEN FALSE
                  ELSE IF s[i] = t[j] THEN go(i + 1, j + 1) ELSE go(i, j + 1)
  IN go(1, 1)

CtorOps   == {"c_def", "c_n", "c_fill", "c_range", "c_il", "c_copy", "c_copya", "c_move", "c_conv"}
InsertOps == {"ins", "insm", "ins_fill", "ins_range", "ins_il", "empl"}
InsSelf   == {"ins_self", "empl_self"}
AppendOps == {"push", "pushm", "emplb"}
AppSelf   == {"push_self", "emplb_self"}
AssignOps == {"as_fill", "as_range", "as_il"}
KeepOps   == {"reserve", "shrink", "revert", "obs", "eq", "eqx", "max", "a_self", "end", "nop"}

(* Contents of the target (a) and of the other object (b) afterwards, the result (-1: none), *)
(* for operations within their contract.                                      *)
R(a, b, r) == [a |-> a, b |-> b, r |-> r]
SeqEff(e, s, t) ==
  CASE e.op \in {"c_def", "clear"}          -> R(<<>>, t, -1)
    [] e.op = "c_n"                          -> R(Fill(e.n, 0), t, -1)
    [] e.op \in {"c_fill", "c_range", "c_il", "c_conv"} \cup AssignOps -> R(e.vs, t, -1)
    [] e.op \in {"c_copy", "c_copya", "a_copy"}          -> R(t, t, -1)
    [] e.op \in {"c_move", "a_move"}         -> R(t, <<>>, -1)
    [] e.op \in {"push", "pushm"}            -> R(s \o e.vs, t, -1)
    [] e.op = "emplb"                        -> R(s \o e.vs, t, Len(s))
    [] e.op = "push_self"                    -> R(Append(s, s[e.i + 1]), t, -1)
    [] e.op = "emplb_self"                   -> R(Append(s, s[e.i + 1]), t, Len(s))
    [] e.op \in InsertOps                    -> R(InsertAt(s, e.p, e.vs), t, e.p)
    [] e.op \in InsSelf                      -> R(InsertAt(s, e.p, <<s[e.i + 1]>>), t, e.p)
    [] e.op = "ins_fill_self"                -> R(InsertAt(s, e.p, Fill(e.n, s[e.i + 1])), t, e.p)
    [] e.op = "er"                           -> R(EraseAt(s, e.p, e.p + 1), t, e.p)
    [] e.op = "er_range"                     -> R(EraseAt(s, e.p, e.q), t, e.p)
    [] e.op = "pop"                          -> R(SubSeq(s, 1, Len(s) - 1), t, -1)
    [] e.op = "res"                          -> R(ResizeTo(s, e.n, 0), t, -1)
    [] e.op = "res_v"                        -> R(ResizeTo(s, e.n, e.v), t, -1)
    [] e.op = "res_self"                     -> R(ResizeTo(s, e.n, s[e.i + 1]), t, -1)
    [] e.op = "set"                          -> R([s EXCEPT ![e.i + 1] = e.v], t, -1)
    [] e.op = "swap"                         -> R(t, s, -1)
    [] e.op \in {"eq", "eqx"}                -> R(s, t, B2I(s = t))
    [] e.op \in {"bad_ins", "bad_er"}        -> R(s, t, -1)
    [] e.op = "end"                          -> R(<<>>, <<>>, -1)
    [] OTHER                                 -> R(s, t, -1)

(* An observation of the same contents through every accessor *)
ObsOK(e, s) ==
  LET n == Len(s) IN
  /\ e.fw = s /\ e.cfw = s /\ e.ccfw = s /\ e.ix = s /\ e.cix = s /\ e.at = s /\ e.cat = s /\ e.dt = s /\ e.cdt = s
  /\ e.rv = Rev(s) /\ e.crv = Rev(s) /\ e.ccrv = Rev(s)
  /\ e.em = (n = 0) /\ e.sz = n
  /\ (n > 0 => e.fb = <<s[1], s[1], s[n], s[n]>>)
=============================================================================
