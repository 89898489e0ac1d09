------------------------------ MODULE BoundsMC ------------------------------
(* Every call of every kind at every length in every configuration.  The object    *)
(* is kept as its library keeps it (storage and a length); checks made before      *)
(* anything is touched give exactly the reports meant.                             *)
EXTENDS Bounds, TLC, Json
CONSTANTS Cap, Max, Keys
VARIABLES c, s, op, out
vars == <<c, s, op, out>>
Kinds == Vecs \cup Views \cup {"map"}
Confs == {x \in [kind : Kinds, cap : {Cap}, eh : 0..3, nd : BOOLEAN, nb : BOOLEAN, nt : BOOLEAN] :
            /\ x.kind \in Vecs => ~x.nt
            /\ x.kind \in Views => x.eh = 1 /\ ~x.nt
            /\ x.kind = "map" => x.eh = 1 /\ ~x.nb}
Init == c \in Confs /\ s = (IF c.kind = "map" THEN Rep(Keys, -1) ELSE <<>>) /\ op = [op |-> "init"] /\ out = [o |-> "ok", s |-> <<>>, r |-> -1]
Obs(q) == IF c.kind = "map" THEN [i \in 1..Len(q) |-> q[i] # -1] ELSE Len(q)
View == <<c, Obs(s)>>
Key == <<c.kind, IF c.kind = "map" THEN Report(c, "key") ELSE IF c.kind \in Vecs THEN Report(c, "range") ELSE "", IF c.kind = "map" THEN "" ELSE Report(c, "bounds")>>
E(nm, k, p, n, v) == [op |-> nm, k |-> k, p |-> p, n |-> n, v |-> v]
Sizes == (0..(Max + 1)) \cup {Huge}
Poses == 0..(Max + 2)
\* the checks of the library, in its terms: an unsigned index or size against the length or the room
Un(n) == IF n = Huge THEN 1000000 ELSE n
Library(e) ==
  LET len == Len(s)
      room == Cap - len
      bad == CASE c.kind = "map" -> e.op \in {"get", "set"} /\ s[e.p + 1] = -1
               [] e.op \in {"get", "set"} -> ~(Un(e.p) < len)
               [] c.kind = "sv" -> (e.op \in {"make", "assign", "resize"} /\ Un(e.n) > Cap) \/ (e.op = "grow" /\ len >= Cap) \/ (e.op = "ins" /\ Un(Count(e)) > room)
               [] c.kind = "sm" -> (e.op = "ins" /\ e.p > len) \/ (e.op = "era" /\ e.p + 1 > len) \/ (e.op = "erar" /\ (e.p > e.n \/ e.p > len \/ e.p + (e.n - e.p) > len))
               [] OTHER -> FALSE
      how == IF c.kind = "map" THEN (IF c.nt THEN (IF c.nd THEN "run" ELSE "abort") ELSE "oor")
             ELSE IF e.op \in {"get", "set"} THEN (IF c.nd \/ c.nb THEN "run" ELSE "abort")
             ELSE CASE c.eh = 0 -> "run" [] c.eh = 1 -> "oor" [] c.eh = 2 -> (IF c.nd THEN "run" ELSE "abort") [] OTHER -> (IF c.nd THEN "oor" ELSE "abort") IN
  IF bad THEN how ELSE "ok"
Do(e) == /\ TRUE = Meant(c, e, s)
         /\ LET x == Outcome(c, e, s) IN
            /\ out' = x /\ s' = x.s /\ op' = e
            /\ Len(x.s) <= Max /\ (c.kind = "sv" => Len(x.s) <= Cap)
Next == /\ c' = c
        /\ \/ c.kind = "map" /\ \E p \in 0..(Keys - 1) : \/ Do(E("put", 0, p, 0, 5)) \/ Do(E("del", 0, p, 0, 0)) \/ Do(E("set", 0, p, 0, 7))
                                                         \/ \E k \in 0..1 : Do(E("get", k, p, 0, 0))
           \/ c.kind # "map" /\
              \/ \E k \in 0..3, p \in Poses \cup {Huge} : Do(E("get", k, p, 0, 0))
              \/ \E k \in 0..1, p \in Poses \cup {Huge} : Do(E("set", k, p, 0, 7))
              \/ \E nm \in {"front", "back"}, k \in 0..1 : Do(E(nm, k, 0, 0, 0))
           \/ c.kind \in Views /\ \E n \in 0..Max : Do(E("make", 2, 0, n, 1))
           \/ c.kind \in Vecs /\
              \/ \E n \in Sizes : \/ \E k \in (IF n = Huge THEN 0..1 ELSE 0..4) : Do(E("make", k, 0, n, 1))
                                  \/ \E k \in (IF n = Huge THEN {1} ELSE 1..4) : Do(E("assign", k, 0, n, 1))
                                  \/ \E k \in 0..1 : Do(E("resize", k, 0, n, 1))
                                  \/ \E k \in (IF n = Huge THEN {3} ELSE 3..5), p \in Poses : Do(E("ins", k, p, n, 1))
              \/ \E k \in 0..2 : Do(E("grow", k, 0, 0, 1)) \/ \E p \in Poses : Do(E("ins", k, p, 0, 1))
              \/ \E p \in Poses : Do(E("era", 0, p, 0, 0)) \/ \E q \in Poses : Do(E("erar", 0, p, q, 0))
              \/ Do(E("pop", 0, 0, 0, 0)) \/ Do(E("clear", 0, 0, 0, 0))
Spec == Init /\ [][Next]_vars
Inv == c.kind = "sv" => Len(s) <= Cap
Default == [c EXCEPT !.eh = 1, !.nd = FALSE, !.nb = FALSE, !.nt = FALSE]
Within(o) == o.o = "ok" /\ o.r # -2
Obeys == [][/\ (IF Library(op') = "run" THEN "ok" ELSE Library(op')) = out'.o
            /\ ~Within(out') => s' = s
            \* use within bounds is the same in every configuration, and misuse is misuse in each
            /\ Within(Outcome(Default, op', s)) <=> Within(out')
            /\ Within(out') => Outcome(Default, op', s) = out']_vars
Emit == PrintT("EDGE " \o ToJson(<<<<Key, Obs(s)>>, <<op'.op, op'.k, op'.p, op'.n, op'.v>>, <<Key, Obs(s')>>>>))
=============================================================================
