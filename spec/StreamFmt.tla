------------------------------- MODULE StreamFmt -------------------------------
(* What a text stream appends for each value streamed into it, given the formatting state which the values before it left. Text is a
   sequence of character codes. A token is <<kind, argument, ...>>; the state is a record of the flags, the fill and the width. *)
EXTENDS Integers, Sequences
Fresh == [base |-> 10, alpha |-> FALSE, adj |-> "none", plus |-> FALSE, upper |-> FALSE, show |-> FALSE, fill |-> 32, width |-> 0]
Rep(c, n) == [i \in 1..n |-> c]
Digit(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
RECURSIVE Dig(_, _, _)
Dig(n, b, up) == IF n < b THEN <<Digit(n, up)>> ELSE Dig(n \div b, b, up) \o <<Digit(n % b, up)>>
Four(n, up) == <<Digit(n \div 4096, up), Digit((n \div 256) % 16, up), Digit((n \div 16) % 16, up), Digit(n % 16, up)>>
\* hexadecimal shows a negative number of 32 bits in two's complement
Hex(v, up) == IF v >= 0 THEN Dig(v, 16, up) ELSE Four((v \div 65536) % 65536, up) \o Four(v % 65536, up)
Sign(f, neg) == IF neg THEN <<45>> ELSE IF f.plus THEN <<43>> ELSE <<>>
\* prefix and digits, padded between them when the adjustment is internal
Padded(f, pre, body) == LET n == f.width - Len(pre) - Len(body)  p == IF n > 0 THEN Rep(f.fill, n) ELSE <<>> IN
                        CASE f.adj = "left" -> pre \o body \o p [] f.adj = "internal" -> pre \o p \o body [] OTHER -> p \o pre \o body
TextOf(f, body) == Padded([f EXCEPT !.adj = IF @ = "left" THEN "left" ELSE "right"], <<>>, body)
IntText(f, v) == IF f.base = 10 THEN LET m == IF v < 0 THEN (IF v = -2147483647 - 1 THEN Dig(214748364, 10, FALSE) \o <<56>> ELSE Dig(-v, 10, FALSE)) ELSE Dig(v, 10, FALSE) IN Padded(f, Sign(f, v < 0), m)
             ELSE IF f.base = 16 THEN Padded(f, IF f.show /\ v # 0 THEN (IF f.upper THEN <<48, 88>> ELSE <<48, 120>>) ELSE <<>>, Hex(v, f.upper))
             ELSE Padded(f, <<>>, IF f.show /\ v # 0 THEN <<48>> \o Dig(v, 8, FALSE) ELSE Dig(v, 8, FALSE))
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
\* a number of quarters as a floating-point number in the default notation
Quarters(f, q) == LET m == IF q < 0 THEN -q ELSE q  r == m % 4 IN
                  Padded(f, Sign(f, q < 0), Dig(m \div 4, 10, FALSE) \o (CASE r = 0 -> <<>> [] r = 1 -> <<46, 50, 53>> [] r = 2 -> <<46, 53>> [] OTHER -> <<46, 55, 53>>))
Kinds == {"int", "bool", "chr", "str", "user", "dbl", "setw", "setfill", "hex", "dec", "oct", "boolalpha", "noboolalpha", "left", "right", "internal", "showpos", "noshowpos", "uppercase", "showbase"}
\* the text which a token appends ...
Out(f, k) ==
  CASE k[1] = "int" -> IntText(f, k[2])
    [] k[1] = "bool" -> (IF f.alpha THEN TextOf(f, IF k[2] = 1 THEN True ELSE False) ELSE IntText(f, k[2]))
    [] k[1] \in {"chr", "str"} -> TextOf(f, Tail(k))
    \* a value of a user's type, which streams a character, a number and a character
    [] k[1] = "user" -> TextOf(f, <<60>>) \o IntText([f EXCEPT !.width = 0], k[2]) \o <<62>>
    [] k[1] = "dbl" -> Quarters(f, k[2])
    [] OTHER -> <<>>
\* ... and the state it leaves: every value uses up the width
After(f, k) ==
  CASE k[1] \in {"int", "bool", "chr", "str", "user", "dbl"} -> [f EXCEPT !.width = 0]
    [] k[1] = "setw" -> [f EXCEPT !.width = k[2]] [] k[1] = "setfill" -> [f EXCEPT !.fill = k[2]]
    [] k[1] = "hex" -> [f EXCEPT !.base = 16] [] k[1] = "dec" -> [f EXCEPT !.base = 10] [] k[1] = "oct" -> [f EXCEPT !.base = 8]
    [] k[1] = "boolalpha" -> [f EXCEPT !.alpha = TRUE] [] k[1] = "noboolalpha" -> [f EXCEPT !.alpha = FALSE]
    [] k[1] \in {"left", "right", "internal"} -> [f EXCEPT !.adj = k[1]]
    [] k[1] = "showpos" -> [f EXCEPT !.plus = TRUE] [] k[1] = "noshowpos" -> [f EXCEPT !.plus = FALSE]
    [] k[1] = "uppercase" -> [f EXCEPT !.upper = TRUE] [] k[1] = "showbase" -> [f EXCEPT !.show = TRUE]
RECURSIVE Message(_, _, _)
Message(f, ks, i) == IF i > Len(ks) THEN <<>> ELSE Out(f, ks[i]) \o Message(After(f, ks[i]), ks, i + 1)
=============================================================================
