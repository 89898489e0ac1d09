------------------------------- MODULE StreamMC -------------------------------
(* The formatting states which values and manipulators lead to. *)
EXTENDS StreamFmt, TLC, Json
CONSTANT Ws
VARIABLES f, op
vars == <<f, op>>
V == -1..1
Tokens == {<<k, v>> : k \in {"int", "user", "dbl"}, v \in {-30, 0, 255}} \cup {<<"bool", v>> : v \in {0, 1}} \cup {<<"chr", 65>>, <<"str">>, <<"str", 97, 98>>}
          \cup {<<"setw", w>> : w \in Ws} \cup {<<"setfill", c>> : c \in {32, 42}}
          \cup {<<k>> : k \in {"hex", "dec", "boolalpha", "noboolalpha", "left", "right", "internal", "showpos", "noshowpos", "showbase"}}
Init == f = Fresh /\ op = <<"none">>
Next == \E k \in Tokens : op' = k /\ f' = After(f, k)
Spec == Init /\ [][Next]_vars
View == f
IsVal(k) == k[1] \in {"int", "bool", "chr", "str", "user", "dbl"}
\* a value's text is never shorter than the width asked for nor than the value alone, which is in it
Inv == \A k \in Tokens : LET o == Out(f, k)  b == Out([f EXCEPT !.width = 0], k) IN
        IF IsVal(k) THEN /\ Len(o) >= Len(b) /\ Len(o) >= (IF k[1] = "user" THEN f.width + Len(b) - 1 ELSE f.width)
                         /\ (f.width <= Len(b) /\ k[1] # "user" => o = b)
                         /\ ((f.adj # "internal" /\ k[1] # "user") => \E i \in {0, Len(o) - Len(b)} : SubSeq(o, i + 1, i + Len(b)) = b)
                         /\ After(f, k).width = 0 /\ (After(f, k).fill = f.fill)
        ELSE o = <<>>
\* texts are concatenated, each in the state which the ones before left
Concat == \A a \in {<<"int", -30>>, <<"setw", 3>>, <<"hex">>}, b \in Tokens : Message(f, <<a, b>>, 1) = Out(f, a) \o Out(After(f, a), b)
Emit == PrintT("EDGE " \o ToJson(<<f, op', f'>>))
=============================================================================
