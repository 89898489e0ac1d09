--------------------------- MODULE SortedUniqueMC ---------------------------
(* The binary search the containers are built on, checked exhaustively against   *)
(* the meaning of every lookup, and the preservation of sorted uniqueness, for    *)
(* two objects with any orderings.  Every transition is printed for replay.       *)
EXTENDS SortedUnique, TLC, Json
CONSTANTS Keys, MaxLen, Map
VARIABLES s, ord, op
vars == <<s, ord, op>>
View == <<[k \in 1..2 |-> [i \in 1..Len(s[k]) |-> s[k][i][1]]], ord>>
Init == s = [k \in 1..2 |-> <<>>] /\ ord = [k \in 1..2 |-> 0] /\ op = <<"init">>

\* lower and upper bound by bisection of [a, b)
RECURSIVE BisLo(_, _, _, _, _, _), BisHi(_, _, _, _, _, _)
BisLo(o, t, kk, k, a, b) == IF a = b THEN a ELSE LET m == (a + b) \div 2 IN
  IF ERank(o, kk, At(t, m)) < KRank(o, kk, k) THEN BisLo(o, t, kk, k, m + 1, b) ELSE BisLo(o, t, kk, k, a, m)
BisHi(o, t, kk, k, a, b) == IF a = b THEN a ELSE LET m == (a + b) \div 2 IN
  IF KRank(o, kk, k) < ERank(o, kk, At(t, m)) THEN BisHi(o, t, kk, k, a, m) ELSE BisHi(o, t, kk, k, m + 1, b)

KeysOf(kk) == IF kk = 2 THEN {k \div 10 : k \in Keys} ELSE Keys
BisOK == \A x \in 1..2 : \A kk \in 0..2 : \A k \in KeysOf(kk) :
   /\ BisLo(ord[x], s[x], kk, k, 0, Len(s[x])) = Lo(ord[x], s[x], kk, k)
   /\ BisHi(ord[x], s[x], kk, k, 0, Len(s[x])) = Hi(ord[x], s[x], kk, k)
Inv == BisOK /\ \A k \in 1..2 : Sorted(ord[k], s[k])

Do(o, e, args) == LET q == Effect(e, ord[o], s[o], 0) IN
  /\ Len(q.c) <= MaxLen /\ s' = [s EXCEPT ![o] = q.c] /\ op' = <<e.op, o>> \o args /\ UNCHANGED ord
Pair(o, nm) == LET y == 3 - o IN
  /\ op' = <<nm, o>>
  /\ CASE nm \in {"c_copy", "a_copy"} -> s' = [s EXCEPT ![o] = s[y]] /\ ord' = [ord EXCEPT ![o] = ord[y]]
       [] nm \in {"c_move", "a_move"} -> s' = [s EXCEPT ![o] = s[y], ![y] = <<>>] /\ ord' = [ord EXCEPT ![o] = ord[y]]
       [] nm = "swap" -> s' = [s EXCEPT ![o] = s[y], ![y] = s[o]] /\ ord' = [ord EXCEPT ![o] = ord[y], ![y] = ord[o]]
       [] OTHER -> UNCHANGED <<s, ord>>
Next == \E o \in 1..2 :
  \/ \E nm \in {"c_copy", "a_copy", "c_move", "a_move", "swap", "eq"} : Pair(o, nm)
  \/ \E d \in 0..2 : s' = [s EXCEPT ![o] = <<>>] /\ ord' = [ord EXCEPT ![o] = d] /\ op' = <<"c_def", o, d>>
  \/ \E k \in Keys : Do(o, [op |-> "ins", k |-> k, v |-> 1], <<k>>)
  \/ o = 1 /\
     \/ \E k \in Keys : \E nm \in {"insm", "empl", "insp"} : Do(o, [op |-> nm, k |-> k, v |-> 1], <<k>>)
     \/ \E kk \in 0..2 : \E k \in KeysOf(kk) : \E nm \in Lookups : Do(o, [op |-> nm, kk |-> kk, k |-> k], <<kk, k>>)
     \/ \E p \in 0..Len(s[o]) - 1 : \E nm \in {"rmi", "rmci", "rmself", "inself", "modrm"} : Do(o, [op |-> nm, p |-> p], <<p>>)
     \/ Map /\ \E k \in Keys : \E nm \in {"idx", "idxm", "idxset", "at", "cat", "atset"} : Do(o, [op |-> nm, k |-> k, v |-> 1], <<k>>)
     \/ Do(o, [op |-> "clear"], <<>>) \/ Do(o, [op |-> "obs"], <<>>)
Spec == Init /\ [][Next]_vars
Emit == IF op'[1] \in {"c_def", "ins"} \/ (op'[1] \in {"c_copy", "a_copy", "c_move", "a_move", "swap", "eq"} /\ Len(s[1]) + Len(s[2]) <= 3) \/ (s[2] = <<>> /\ ord[2] = 0)
        THEN PrintT("EDGE " \o ToJson(<<View, op', View'>>)) ELSE TRUE
=============================================================================
