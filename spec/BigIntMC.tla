------------------------------- MODULE BigIntMC -------------------------------
(* Every pair of small integers: the limb arithmetic is integer arithmetic. *)
EXTENDS BigInt, TLC
CONSTANT R, K
VARIABLES i, j
Init == i \in -R..R /\ j \in -R..R
Next == UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j>>
Trunc(x, k) == IF x >= 0 THEN x \div k ELSE -((-x) \div k)
X == Int2Big(i)
Y == Int2Big(j)
Inv == /\ Big2Int(X) = i /\ Mk(X[1], X[2]) = X /\ \A k \in 1..Len(X[2]) : X[2][k] \in 0..B - 1
       /\ Add(X, Y) = Int2Big(i + j) /\ Sub(X, Y) = Int2Big(i - j) /\ Neg(X) = Int2Big(-i) /\ AddI(X, j) = Add(X, Y)
       /\ Cmp(X, Y) = (IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0)
       /\ \A k \in 1..K : Mul(X, k) = Int2Big(i * k) /\ DivT(X, k) = Int2Big(Trunc(i, k)) /\ DivF(X, k) = Int2Big(i \div k) /\ Mod(X, k) = i % k
=============================================================================
