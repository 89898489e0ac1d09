-------------------------------- MODULE BigInt --------------------------------
(* Integers of any magnitude, as a sign and limbs (lowest first, none for zero): what TLC's own 32-bit integers cannot hold. *)
EXTENDS Integers, Sequences
CONSTANT B        \* the base of the limbs: small in the model that checks this module, 10000 for the traces
Zero == <<1, <<>>>>
RECURSIVE Strip(_)
Strip(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m
Mk(s, m) == LET k == Strip(m) IN <<IF k = <<>> THEN 1 ELSE s, k>>
At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE AddC(_, _, _, _), SubC(_, _, _, _), MulC(_, _, _, _), DivC(_, _, _), RemC(_, _, _), CmpC(_, _, _), PosC(_)
AddC(a, b, i, c) == IF i > Longer(a, b) THEN IF c = 0 THEN <<>> ELSE <<c>>
                    ELSE LET x == At(a, i) + At(b, i) + c IN <<x % B>> \o AddC(a, b, i + 1, x \div B)
SubC(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET x == a[i] - At(b, i) - c IN <<x % B>> \o SubC(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)
MulC(a, k, i, c) == IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c % B>> \o MulC(a, k, i, c \div B)
                    ELSE LET x == a[i] * k + c IN <<x % B>> \o MulC(a, k, i + 1, x \div B)
RemC(a, k, i) == IF i > Len(a) THEN 0 ELSE (RemC(a, k, i + 1) * B + a[i]) % k          \* of the limbs from i up
DivC(a, k, i) == IF i > Len(a) THEN <<>> ELSE <<(RemC(a, k, i + 1) * B + a[i]) \div k>> \o DivC(a, k, i + 1)
CmpC(a, b, i) == IF i = 0 THEN 0 ELSE IF At(a, i) # At(b, i) THEN (IF At(a, i) < At(b, i) THEN -1 ELSE 1) ELSE CmpC(a, b, i - 1)
CmpM(a, b) == CmpC(a, b, Longer(a, b))
PosC(i) == IF i = 0 THEN <<>> ELSE <<i % B>> \o PosC(i \div B)

Neg(x) == Mk(-x[1], x[2])
Add(x, y) == IF x[1] = y[1] THEN Mk(x[1], AddC(x[2], y[2], 1, 0))
             ELSE IF CmpM(x[2], y[2]) >= 0 THEN Mk(x[1], SubC(x[2], y[2], 1, 0)) ELSE Mk(y[1], SubC(y[2], x[2], 1, 0))
Int2Big(i) == IF i >= 0 THEN <<1, PosC(i)>> ELSE Add(<<-1, PosC(-(i + 1))>>, <<-1, <<1>>>>)
Sub(x, y) == Add(x, Neg(y))
AddI(x, i) == Add(x, Int2Big(i))
Mul(x, k) == Mk(x[1], MulC(x[2], k, 1, 0))                             \* k > 0, B * k within TLC's integers
DivT(x, k) == Mk(x[1], DivC(x[2], k, 1))                               \* towards zero
Mod(x, k) == LET r == RemC(x[2], k, 1) IN IF x[1] = 1 \/ r = 0 THEN r ELSE k - r
DivF(x, k) == DivT(AddI(x, -Mod(x, k)), k)                             \* downwards
Cmp(x, y) == IF x[1] # y[1] THEN x[1] ELSE x[1] * CmpM(x[2], y[2])
RECURSIVE MagC(_, _)
MagC(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + B * MagC(m, i + 1)
Big2Int(x) == x[1] * MagC(x[2], 1)
=============================================================================
