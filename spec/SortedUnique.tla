---------------------------- MODULE SortedUnique ----------------------------
(* Sorted unique associative containers: contents are a sequence of entries     *)
(* <<key, value>> strictly sorted by an ordering, as std::map / std::set keep.  *)
(* Orderings: 0 ascending, 1 descending, 2 ascending by tens (keys of the same  *)
(* ten are equivalent but distinct).  Lookup keys: kk = 0 the same type, 1 another *)
(* type equivalent to one key, 2 a group: equivalent to every key of that ten.   *)
EXTENDS Integers, Sequences, FiniteSets

Rank(ord, k)  == CASE ord = 0 -> k [] ord = 1 -> -k [] OTHER -> k \div 10
GRank(ord, k) == IF ord = 1 THEN -(k \div 10) ELSE k \div 10
\* rank of an entry and of the looked up key, for comparing them
ERank(ord, kk, e) == IF kk = 2 THEN GRank(ord, e[1]) ELSE Rank(ord, e[1])
KRank(ord, kk, k) == IF kk = 2 THEN (IF ord = 1 THEN -k ELSE k) ELSE Rank(ord, k)
Eqv(ord, a, b) == Rank(ord, a) = Rank(ord, b)

Sorted(ord, s) == \A i \in 1..Len(s) - 1 : Rank(ord, s[i][1]) < Rank(ord, s[i + 1][1])
Lo(ord, s, kk, k) == Cardinality({i \in 1..Len(s) : ERank(ord, kk, s[i]) < KRank(ord, kk, k)})
Hi(ord, s, kk, k) == Cardinality({i \in 1..Len(s) : ERank(ord, kk, s[i]) <= KRank(ord, kk, k)})
At(s, p) == s[p + 1]
InsAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Cut(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
RevS(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
B(b) == IF b THEN 1 ELSE 0

\* building from any sequence of entries: the first entry of each class of equivalent keys
BuiltFrom(ord, vs, t) ==
  /\ Sorted(ord, t)
  /\ \A i \in 1..Len(t) : \E j \in 1..Len(vs) : vs[j] = t[i] /\ \A h \in 1..j - 1 : ~Eqv(ord, vs[h][1], vs[j][1])
  /\ \A j \in 1..Len(vs) : \E i \in 1..Len(t) : Eqv(ord, vs[j][1], t[i][1])

(* Outcome of an operation e on contents s: [c: contents, r: result, ok: within reach]. *)
O(c, r) == [c |-> c, r |-> r, x |-> ""]
Fail(s, x) == [c |-> s, r |-> <<>>, x |-> x]
Insert(ord, s, k, v, max) == \* keeps an equivalent entry
  LET lo == Lo(ord, s, 0, k)
      hi == Hi(ord, s, 0, k) IN
  IF hi > lo THEN O(s, <<lo, 0>>)
  ELSE IF max > 0 /\ Len(s) >= max THEN Fail(s, "oor")
  ELSE O(InsAt(s, lo, <<k, v>>), <<lo, 1>>)
Lookups == {"find", "cfind", "lb", "clb", "ub", "cub", "eqr", "ceqr", "cnt", "rm"}
Effect(e, ord, s, max) ==
  LET n == Len(s) IN
  CASE e.op \in {"ins", "insm", "insp", "empl"} -> Insert(ord, s, e.k, e.v, max)
    [] e.op = "inself" -> O(s, <<e.p, 0>>)
    [] e.op \in {"lb", "clb"} -> O(s, <<Lo(ord, s, e.kk, e.k)>>)
    [] e.op \in {"ub", "cub"} -> O(s, <<Hi(ord, s, e.kk, e.k)>>)
    [] e.op \in {"eqr", "ceqr"} -> O(s, <<Lo(ord, s, e.kk, e.k), Hi(ord, s, e.kk, e.k)>>)
    [] e.op = "cnt" -> O(s, <<Hi(ord, s, e.kk, e.k) - Lo(ord, s, e.kk, e.k)>>)
    [] e.op = "rm" -> O(Cut(s, Lo(ord, s, e.kk, e.k), Hi(ord, s, e.kk, e.k)), <<Hi(ord, s, e.kk, e.k) - Lo(ord, s, e.kk, e.k)>>)
    [] e.op = "rmself" -> O(Cut(s, e.p, e.p + 1), <<1>>)
    [] e.op \in {"rmi", "rmci"} -> O(Cut(s, e.p, e.p + 1), <<e.p>>)
    [] e.op = "modrm" -> O(Cut(s, e.p, e.p + 1), <<>>)
    [] e.op = "mod" -> O(SubSeq(s, 1, n - 1), <<>>)
    [] e.op = "clear" -> O(<<>>, <<>>)
    [] e.op = "reserve" -> IF max > 0 /\ e.r = <<>> THEN Fail(s, "oor") ELSE O(s, <<1>>)
    [] e.op \in {"idx", "idxm"} ->
         LET q == Insert(ord, s, e.k, 0, max) IN IF q.x # "" THEN q ELSE O(q.c, <<At(q.c, Lo(ord, s, 0, e.k))[2]>>)
    [] e.op = "idxset" ->
         LET q == Insert(ord, s, e.k, 0, max) IN IF q.x # "" THEN q ELSE O([q.c EXCEPT ![Lo(ord, s, 0, e.k) + 1] = <<@[1], e.v>>], <<>>)
    [] e.op = "idxself" -> O(s, <<At(s, e.p)[2]>>)
    [] e.op \in {"at", "cat"} -> IF Hi(ord, s, 0, e.k) = Lo(ord, s, 0, e.k) THEN Fail(s, "oor") ELSE O(s, <<At(s, Lo(ord, s, 0, e.k))[2]>>)
    [] e.op = "atset" -> IF Hi(ord, s, 0, e.k) = Lo(ord, s, 0, e.k) THEN Fail(s, "oor") ELSE O([s EXCEPT ![Lo(ord, s, 0, e.k) + 1] = <<@[1], e.v>>], <<>>)
    [] e.op = "setv" -> O([s EXCEPT ![e.p + 1] = <<@[1], e.v>>], <<>>)
    [] OTHER -> O(s, <<>>)
=============================================================================
