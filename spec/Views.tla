-------------------------------- MODULE Views --------------------------------
(* A view is the sequence of the addresses of the elements it denotes.           *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Grid(o, st, n) == [k \in 1..n |-> o + (k - 1) * st]
\* sizes: a negative number stands for one larger than any view
Slice(s, off, cnt) == IF off < 0 \/ off >= Len(s) THEN <<>>
                      ELSE IF cnt < 0 \/ cnt > Len(s) - off THEN SubSeq(s, off + 1, Len(s)) ELSE SubSeq(s, off + 1, off + cnt)
First(s, n) == IF n < 0 \/ n > Len(s) THEN s ELSE SubSeq(s, 1, n)
Last(s, n) == IF n < 0 \/ n > Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
DropFirst(s, n) == SubSeq(s, n + 1, Len(s))
DropLast(s, n) == SubSeq(s, 1, Len(s) - n)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
=============================================================================
