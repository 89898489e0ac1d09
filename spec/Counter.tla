-------------------------------- MODULE Counter --------------------------------
(* Two counters of a fixed width, as sequences of digits, least significant first.  *)
(* V: their values; P[t]: the call of thread t under way, with its result once it     *)
(* has taken effect. A copy from one counter to another is a read, then a write.        *)
EXTENDS Integers, Sequences
CONSTANT Base
Threads == 0..4
RECURSIVE Plus(_, _, _)
Plus(a, b, carry) ==
  IF a = <<>> THEN <<>> ELSE LET s == Head(a) + Head(b) + carry IN <<s % Base>> \o Plus(Tail(a), Tail(b), s \div Base)
Zero(w) == [i \in 1..w |-> 0]
One(w) == [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
Add(a, b) == Plus(a, b, 0)
Neg(a) == Plus([i \in 1..Len(a) |-> Base - 1 - a[i]], Zero(Len(a)), 1)
Sub(a, b) == Add(a, Neg(b))
Fresh(w) == [V |-> <<Zero(w), Zero(w)>>, P |-> [t \in Threads |-> <<>>]]
Call(x, t, f, c, d, n) == [x EXCEPT !.P[t] = <<[f |-> f, c |-> c, d |-> d, n |-> n, step |-> 0, res |-> <<>>]>>]
Steps(f) == IF f = "assign" THEN 2 ELSE 1
CanLin(x, t) == x.P[t] # <<>> /\ x.P[t][1].step < Steps(x.P[t][1].f)
New(f, v, n) ==
  CASE f \in {"inc", "pinc"} -> Add(v, One(Len(v)))
    [] f \in {"dec", "pdec"} -> Sub(v, One(Len(v)))
    [] f = "add" -> Add(v, n)
    [] f = "sub" -> Sub(v, n)
    [] f \in {"store", "set"} -> n
    [] OTHER -> v
Out(f, v, n) == \* as for an integer
  CASE f \in {"inc", "dec", "add", "sub"} -> New(f, v, n)
    [] f \in {"pinc", "pdec", "load", "conv", "copy"} -> v
    [] f = "set" -> n
    [] OTHER -> <<>>
Lin(x, t) ==
  LET p == x.P[t][1] IN
  IF p.f = "assign" THEN (IF p.step = 0 THEN [x EXCEPT !.P[t] = <<[p EXCEPT !.step = 1, !.res = x.V[p.d]]>>]
                          ELSE [x EXCEPT !.V[p.c] = p.res, !.P[t] = <<[p EXCEPT !.step = 2, !.res = <<>>]>>])
  ELSE [x EXCEPT !.V[p.c] = New(p.f, x.V[p.c], p.n), !.P[t] = <<[p EXCEPT !.step = 1, !.res = Out(p.f, x.V[p.c], p.n)]>>]
CanReturn(x, t, r) == x.P[t] # <<>> /\ ~CanLin(x, t) /\ x.P[t][1].res = r
Return(x, t) == [x EXCEPT !.P[t] = <<>>]
=============================================================================
