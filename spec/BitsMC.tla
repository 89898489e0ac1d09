------------------------------- MODULE BitsMC -------------------------------
(* The word-level algorithms, over words of W bits and with anything beyond the *)
(* size, refine the sequence of bits: checked from every pair of small bitsets   *)
(* (hence for every history), one operation at a time.                           *)
EXTENDS Bits, FiniteSets, TLC
CONSTANTS W, MaxSize, GrowTo
VARIABLES a, b, done    \* bitsets: [buf: sequence of words, n: size]; a word is a tuple of W bits
vars == <<a, b, done>>
Words(n) == (n + W - 1) \div W
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Abs(x) == SubSeq(Cat(x.buf), 1, x.n)
Word == [1..W -> 0..1]
ZeroW == [k \in 1..W |-> 0]
Shl(w, k) == [j \in 1..W |-> IF j - k >= 1 THEN w[j - k] ELSE 0]
Shr(w, k) == [j \in 1..W |-> IF j + k <= W THEN w[j + k] ELSE 0]
Or(v, w) == [j \in 1..W |-> IF v[j] + w[j] > 0 THEN 1 ELSE 0]
Low(w, k) == [j \in 1..W |-> IF j <= k THEN w[j] ELSE 0]
High(w, k) == [j \in 1..W |-> IF j > k THEN w[j] ELSE 0]

RECURSIVE Sized(_, _)
Sized(buf, k) == IF Len(buf) = k THEN buf ELSE IF Len(buf) > k THEN SubSeq(buf, 1, k) ELSE Sized(Append(buf, ZeroW), k)
DoResize(x, n) ==
  LET pad == x.n % W
      buf == IF pad > 0 THEN [x.buf EXCEPT ![Len(x.buf)] = Low(@, pad)] ELSE x.buf
  IN [buf |-> Sized(buf, Words(n)), n |-> n]
RECURSIVE App(_, _, _, _, _)
App(buf, my, src, i, pad) ==
  IF i > Len(src) THEN buf
  ELSE LET b1 == [buf EXCEPT ![my] = Or(@, Shl(src[i], pad))] IN
       IF my + 1 > Len(buf) THEN b1 ELSE App([b1 EXCEPT ![my + 1] = Shr(src[i], W - pad)], my + 1, src, i + 1, pad)
DoAppend(x, y) ==
  IF y.n = 0 THEN x
  ELSE IF x.n % W = 0 THEN [buf |-> x.buf \o y.buf, n |-> x.n + y.n]
  ELSE LET r == DoResize(x, x.n + y.n) IN [r EXCEPT !.buf = App(r.buf, Len(x.buf), y.buf, 1, x.n % W)]
Bit(buf, i) == buf[(i \div W) + 1][(i % W) + 1]
SetBit(buf, i, v) == [buf EXCEPT ![(i \div W) + 1][(i % W) + 1] = v]
RECURSIVE CopyW(_, _, _, _, _, _)
CopyW(buf, f, t, src, sw, pad) == \* f on a word boundary
  IF t - f >= W
  THEN LET w == IF pad = 0 THEN src[sw] ELSE Or(Shr(src[sw], pad), Shl(src[sw + 1], W - pad)) IN
       CopyW([buf EXCEPT ![(f \div W) + 1] = w], f + W, t, src, sw + 1, pad)
  ELSE IF f = t THEN buf
  ELSE LET rpad == t % W
           tail == IF pad + rpad > W THEN Or(Shr(src[sw], pad), Shl(src[sw + 1], W - pad)) ELSE Shr(src[sw], pad) IN
       [buf EXCEPT ![(f \div W) + 1] = Or(Low(tail, rpad), High(@, rpad))]
RECURSIVE CopyB(_, _, _, _, _)
CopyB(buf, f, t, src, s) == \* single bits up to a word boundary
  IF f % W # 0 THEN IF f = t THEN buf ELSE CopyB(SetBit(buf, f, Bit(src, s)), f + 1, t, src, s + 1)
  ELSE CopyW(buf, f, t, src, (s \div W) + 1, s % W)
DoCopy(x, f, t, y, s) == [x EXCEPT !.buf = CopyB(x.buf, f, t, y.buf, s)]
DoAll(x) == x.buf # <<>> /\ (\A k \in 1..(x.n \div W) : x.buf[k] = [j \in 1..W |-> 1])
            /\ (x.n % W # 0 => Low(x.buf[Len(x.buf)], x.n % W) = Low([j \in 1..W |-> 1], x.n % W))
DoAny(x) == (\E k \in 1..(x.n \div W) : x.buf[k] # ZeroW) \/ (x.n % W # 0 /\ Low(x.buf[Len(x.buf)], x.n % W) # ZeroW)

Bitsets == UNION {{[buf |-> q, n |-> n] : q \in [1..Words(n) -> Word]} : n \in 0..MaxSize}
Init == a \in Bitsets /\ b \in Bitsets /\ done = <<>>
Check(e, r) == \* r is the outcome of the algorithm for operation e
  /\ Len(r.buf) = Words(r.n)
  /\ Abs(r) = Effect(e, Abs(a), Abs(b))
Next == /\ done = <<>>
        /\ \/ \E n \in 0..GrowTo : done' = <<[op |-> "resize", n |-> n], DoResize(a, n)>>
           \/ \E v \in 0..1 : LET r == DoResize(a, a.n + 1) IN done' = <<[op |-> "push", v |-> v], [r EXCEPT !.buf = SetBit(r.buf, a.n, v)]>>
           \/ done' = <<[op |-> "append"], DoAppend(a, b)>>
           \/ \E f \in 0..a.n : \E t \in f..a.n : \E s \in 0..b.n - (t - f) :
                done' = <<[op |-> "copy", f |-> f, t |-> t, src |-> s], DoCopy(a, f, t, b, s)>>
           \/ b.n = 0 /\ \E f \in 0..a.n : \E t \in f..a.n : \E s \in 0..f :
                done' = <<[op |-> "copy_self", f |-> s, t |-> s + (t - f), src |-> f], DoCopy(a, s, s + (t - f), a, f)>>
        /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Refines == done # <<>> => Check(done[1], done[2])
Whole == DoAll(a) = AllOf(Abs(a)) /\ DoAny(a) = AnyOf(Abs(a))
=============================================================================
