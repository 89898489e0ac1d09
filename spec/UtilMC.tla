------------------------------- MODULE UtilMC -------------------------------
(* Casts over representations of one unit with W patterns: Noop says exactly when *)
(* a cast never changes one.  Owners in an array, in addresses that wrap: what     *)
(* owner_from_member computes is the owner.                                        *)
EXTENDS Util, TLC
CONSTANTS W, Sz
VARIABLES f, t, r, a, i, o
vars == <<f, t, r, a, i, o>>
Kinds == {"i", "u", "b", "f", "e", "eb"}
Reprs(k) == IF k \in {"b", "eb"} THEN 0..1 ELSE 0..(W - 1)
\* the number a representation stands for; floating point: some other code of the numbers
Num(k, x) == CASE k \in {"i", "e"} -> IF x >= W \div 2 THEN x - W ELSE x
               [] k = "f" -> (13 * x) % W
               [] OTHER -> x
Of(k, n) == CASE k \in {"b", "eb"} -> IF n = 0 THEN 0 ELSE 1
              [] k = "f" -> (5 * n) % W
              [] OTHER -> n % W
Cast(kf, kt, x) == IF kf = kt THEN x ELSE Of(kt, Num(kf, x))
Init == f \in Kinds /\ t \in Kinds /\ r = 0 /\ a \in 0..(W - 1) /\ i = 0 /\ o \in 0..(Sz - 1)
Next == UNCHANGED <<f, t, a, o>> /\ r' = (r + 1) % W /\ i' = (i + 1) % 4
Spec == Init /\ [][Next]_vars
Wrap(x) == x % W
Inv == /\ (Noop(<<1, f>>, <<1, t>>) /\ r \in Reprs(f)) => Cast(f, t, r) = r
       /\ ~Noop(<<1, f>>, <<1, t>>) => \E x \in Reprs(f) : Cast(f, t, x) # x
       /\ Wrap(OwnerAt(Wrap(a + i * Sz + o), o)) = Wrap(a + i * Sz)
=============================================================================
