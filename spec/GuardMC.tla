------------------------------- MODULE GuardMC -------------------------------
(* Guards in the steps of the code: an object with a functor and a flag; moving    *)
(* moves the functor and the flag and clears the source's; the destructor tests     *)
(* the flag, runs the functor and destroys it. Every guard made runs exactly once,  *)
(* when the guard finally holding it ends.                                          *)
EXTENDS OneShot, TLC, Json
VARIABLES s, x, waiting, op, e
vars == <<s, x, waiting, op, e>>
None == [has |-> FALSE, f |-> Nothing]
View == <<[k \in 1..3 |-> <<s[k].f.q, s[k].f.v, s[k].has>>], x>>
Abs(t) == [k \in 1..3 |-> IF t[k].f.q = -1 THEN Nothing ELSE [t[k].f EXCEPT !.n = IF t[k].has THEN 0 ELSE 1]]
Init == s = [k \in 1..3 |-> None] /\ x = 0 /\ waiting = {} /\ op = <<"init">> /\ e = [op |-> "init", calls |-> <<>>]
Fresh == CHOOSE i \in 1..4 : (\A k \in 1..3 : s[k].f.id # i) /\ \A j \in 1..(i - 1) : \E k \in 1..3 : s[k].f.id = j
New(k, q, v) == s[k].f.q = -1 /\ s' = [s EXCEPT ![k] = [has |-> TRUE, f |-> [q |-> q, id |-> Fresh, v |-> v, n |-> 0]]] /\ waiting' = waiting \cup {Fresh} /\ UNCHANGED x
                /\ op' = <<"new", k - 1, q, v>> /\ e' = [op |-> "new", k |-> k, calls |-> <<>>]
Move(k, j) == k # j /\ s[k].f.q = -1 /\ s[j].f.q # -1 /\ s' = [s EXCEPT ![k] = s[j], ![j].has = FALSE] /\ UNCHANGED <<x, waiting>>
              /\ op' = <<"move", k - 1, j - 1>> /\ e' = [op |-> "move", k |-> k, j |-> j, calls |-> <<>>]
Run(f) == IF f.q = 1 THEN <<<<80, x>>>> ELSE <<<<f.id, f.v>>>>
Drop(k) == s[k].f.q # -1 /\ s' = [s EXCEPT ![k] = None] /\ waiting' = (IF s[k].has THEN waiting \ {s[k].f.id} ELSE waiting) /\ UNCHANGED x
           /\ op' = <<"drop", k - 1>> /\ e' = [op |-> "drop", k |-> k, calls |-> IF s[k].has THEN Run(s[k].f) ELSE <<>>]
Poke(v) == x' = v /\ UNCHANGED <<s, waiting>> /\ op' = <<"poke", v>> /\ e' = [op |-> "poke", calls |-> <<>>]
Next == \/ \E k \in 1..3 : (\E q \in {0, 1}, v \in {4, 5} : (q = 0 \/ v = 4) /\ New(k, q, v)) \/ (\E j \in 1..3 : Move(k, j)) \/ Drop(k)
        \/ \E v \in {0, 9} : Poke(v)
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..4 : Cardinality({k \in 1..3 : s[k].has /\ s[k].f.id = i}) = (IF i \in waiting THEN 1 ELSE 0)
Obeys == [][/\ e'.calls = (IF e'.op = "drop" THEN Runs(Abs(s)[e'.k], x) ELSE <<>>)
            /\ e'.op = "move" => Abs(s') = [Abs(s) EXCEPT ![e'.k] = Abs(s)[e'.j], ![e'.j].n = 1]
            /\ e'.op = "drop" => Abs(s') = [Abs(s) EXCEPT ![e'.k] = Nothing]]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
