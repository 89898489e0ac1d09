------------------------------- MODULE ViewsMC -------------------------------
(* Both representations of a view in machine arithmetic with words of W values: *)
(* begin, step and count, and (for step 1) begin and end. Sizes of any magnitude *)
(* cut them to exactly the slice meant, and positions count as they should.      *)
EXTENDS Views, TLC, Json
CONSTANTS W, M
VARIABLES v, op
vars == <<v, op>>
View == <<v.b, v.st, v.n>>
Wrap(x) == x % W
Signed(x) == IF x >= W \div 2 THEN x - W ELSE x
Denote(x) == Grid(x.b, x.st, x.n)
Fits(b, st, n) == n = 0 \/ (b + st * (n - 1) < M)
Init == v = [b |-> 0, st |-> 1, n |-> 0] /\ op = <<"init">>
Sz(x) == IF x < 0 THEN Wrap(x) ELSE x
\* begin, step and count
CSub(x, off, cnt) == IF off > x.n THEN [x EXCEPT !.b = Wrap(x.b + x.n * x.st), !.n = 0]
                     ELSE LET left == Wrap(x.n - off) IN [x EXCEPT !.b = Wrap(x.b + off * x.st), !.n = IF cnt > left THEN left ELSE cnt]
CLast(x, n) == CSub(x, IF n > x.n THEN 0 ELSE Wrap(x.n - n), n)
\* begin and end
PSub(x, off, cnt) == LET e == Wrap(x.b + x.n)  size == Wrap(e - x.b) IN
                     IF off > size THEN [x EXCEPT !.b = e, !.n = 0]
                     ELSE LET left == Wrap(size - off)  b == Wrap(x.b + off)  c == IF cnt > left THEN left ELSE cnt IN
                          [x EXCEPT !.b = b, !.n = Wrap(Wrap(b + c) - b)]
Sub(x, off, cnt) == CSub(x, Sz(off), Sz(cnt))
Sizes == (-3..-1) \cup 0..4
Set(nm, a, b, w) == v' = w /\ op' = <<nm, 0, 0, a, b>>
Next ==
  \/ \E b \in 0..(M - 1), st \in 1..3, n \in 0..3 : Fits(b, st, n) /\ v.n = 0 /\ v' = [b |-> b, st |-> st, n |-> n] /\ op' = <<"mk", 0, 0, 0, b, st, n>>
  \/ \E a \in Sizes, b \in Sizes : Set("sub", a, b, Sub(v, a, b))
  \/ \E a \in Sizes : Set("first", a, 0, Sub(v, 0, a)) \/ Set("last", a, 0, CLast(v, Sz(a)))
  \/ \E a \in 0..v.n : Set("rmpre", a, 0, [v EXCEPT !.b = @ + a * v.st, !.n = @ - a]) \/ Set("rmsuf", a, 0, [v EXCEPT !.n = @ - a])
Spec == Init /\ [][Next]_vars
Inv == /\ \A k \in 1..v.n : Denote(v)[k] \in 0..(M - 1)
       /\ \A i, j \in 0..v.n :      \* positions: difference and order of addresses
            LET p == Wrap(v.b + i * v.st)  q == Wrap(v.b + j * v.st)
                d == Signed(Wrap(q - p))
                t == IF d < 0 THEN -((-d) \div v.st) ELSE d \div v.st IN
            t = j - i /\ Wrap(p + Wrap(Wrap(j - i) * v.st)) = q
Obeys == [][LET s == Denote(v)  t == Denote(v')  a == op'[4]  b == op'[5] IN
            CASE op'[1] = "sub" -> t = Slice(s, a, b) /\ (v.st = 1 => Denote(PSub(v, Sz(a), Sz(b))) = t)
              [] op'[1] = "first" -> t = First(s, a)
              [] op'[1] = "last" -> t = Last(s, a)
              [] op'[1] = "rmpre" -> t = DropFirst(s, a)
              [] op'[1] = "rmsuf" -> t = DropLast(s, a)
              [] OTHER -> TRUE]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
