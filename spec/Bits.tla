-------------------------------- MODULE Bits --------------------------------
(* A resizable sequence of bits (0 / 1), positions 0-based. *)
EXTENDS Integers, Sequences
Zeros(n) == [k \in 1..n |-> 0]
Resize(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))
Put(s, f, t) == SubSeq(s, 1, f) \o t \o SubSeq(s, f + Len(t) + 1, Len(s))   \* t over s from position f
Piece(s, f, n) == SubSeq(s, f + 1, f + n)
AllOf(s) == s # <<>> /\ \A k \in 1..Len(s) : s[k] = 1
AnyOf(s) == \E k \in 1..Len(s) : s[k] = 1
\* copying a range of a sequence onto itself further on, while it overlaps, is unspecified inside the range
Unspecified(e) == e.op = "copy_self" /\ e.src < e.f /\ e.f < e.src + (e.t - e.f)
Effect(e, s, t) == \* the target afterwards
  CASE e.op = "c_def" -> <<>>
    [] e.op = "c_n" -> [k \in 1..e.n |-> e.pat[((k - 1) % Len(e.pat)) + 1]]
    [] e.op \in {"c_copy", "c_move", "a_copy", "a_move"} -> t
    [] e.op = "resize" -> Resize(s, e.n)
    [] e.op = "push" -> Append(s, e.v)
    [] e.op = "assign" -> e.bits
    [] e.op = "append" -> s \o t
    [] e.op = "append_self" -> s \o s
    [] e.op = "copy" -> Put(s, e.f, Piece(t, e.src, e.t - e.f))
    [] e.op = "copy_self" -> Put(s, e.f, Piece(s, e.src, e.t - e.f))
    [] e.op \in {"set", "rset"} -> [s EXCEPT ![e.i + 1] = 1]
    [] e.op \in {"reset", "rreset"} -> [s EXCEPT ![e.i + 1] = 0]
    [] e.op \in {"flip", "rflip"} -> [s EXCEPT ![e.i + 1] = 1 - @]
    [] e.op \in {"setb", "rsetb", "rasg", "iasg"} -> [s EXCEPT ![e.i + 1] = e.v]
    [] e.op = "fill" -> [k \in 1..Len(s) |-> e.v]
    [] OTHER -> s
\* a buffer which can't hold or get the words needed refuses: then nothing changes (what was to be built is empty)
Refusable == {"c_n", "c_copy", "resize", "reserve", "push", "append", "append_self", "assign", "a_copy"}
WordsFor(n, w) == (n + w - 1) \div w
Refuses(e, s, t, w, lim) == e.op \in Refusable /\ lim >= 0 /\ WordsFor(IF e.op = "reserve" THEN e.n ELSE Len(Effect(e, s, t)), w) > lim
RefusedOK(e, s) == IF e.op \in {"c_n", "c_copy"} THEN <<>> ELSE s
OtherAfter(e, t) == IF e.op \in {"c_move", "a_move"} THEN <<>> ELSE t
=============================================================================
