------------------------------- MODULE OwnershipMC -------------------------------
(* Pointers in the steps of the code: control blocks with counts, each pointer       *)
(* assigned by making another and dropping the old; the object's own weak pointer     *)
(* is set when it is first owned. Objects are destroyed exactly when the last strong   *)
(* pointer goes, and blocks when the last pointer of either kind does.                *)
EXTENDS Ownership, TLC, Json
CONSTANT N          \* strong pointers in use
VARIABLES s, w, cb, op, e
vars == <<s, w, cb, op, e>>
\* cb[id] = [sc, wc, live, own]: strong and weak counts (own: plus one for the object's pointer to itself)
No == [sc |-> 0, wc |-> 0, live |-> FALSE, own |-> FALSE]
Ids == 1..5
\* an object is named by the first pointer which has it
Name(i) == IF i = 0 THEN 0 ELSE IF \E k \in 1..3 : s[k].o = i THEN CHOOSE k \in 1..3 : s[k].o = i /\ \A j \in 1..(k - 1) : s[j].o # i ELSE 4
Own(i) == IF i # 0 /\ cb[i].own THEN 1 ELSE 0
View == <<[k \in 1..N |-> <<Name(s[k].o), s[k].p, Own(s[k].o)>>], <<Name(w[1].o), w[1].p, Own(w[1].o)>>>>
Init == s = [k \in 1..3 |-> Null] /\ w = <<Null>> /\ cb = [i \in Ids |-> No] /\ op = <<"init">> /\ e = [op |-> "init"]
Inc(c, i) == IF i = 0 THEN c ELSE [c EXCEPT ![i].sc = @ + 1]
WInc(c, i) == IF i = 0 THEN c ELSE [c EXCEPT ![i].wc = @ + 1]
WDec(c, i) == IF i = 0 THEN c ELSE [c EXCEPT ![i].wc = @ - 1]
Dec(c, i) == IF i = 0 THEN c ELSE IF c[i].sc = 1 THEN [c EXCEPT ![i].sc = 0, ![i].live = FALSE, ![i].wc = IF c[i].own THEN @ - 1 ELSE @] ELSE [c EXCEPT ![i].sc = @ - 1]
Put(c, k, x) == s' = [s EXCEPT ![k] = x] /\ cb' = Dec(c, s[k].o) /\ UNCHANGED w       \* c already counts x
New(k, own) == LET i == CHOOSE i \in Ids : cb[i].sc + cb[i].wc = 0 /\ \A j \in 1..(i - 1) : cb[j].sc + cb[j].wc > 0
   IN Put([cb EXCEPT ![i] = [sc |-> 1, wc |-> IF own THEN 1 ELSE 0, live |-> TRUE, own |-> own]], k, [o |-> i, p |-> 1])
      /\ op' = (IF own THEN <<"own", k - 1, k, 5>> ELSE <<"mks", k - 1, k, 5>>) /\ e' = [op |-> "new", k |-> k]
Alias(k, j, p) == Put(IF s[j].o = 0 THEN cb ELSE Inc(cb, s[j].o), k, IF s[j].o = 0 THEN Null ELSE [o |-> s[j].o, p |-> p]) /\ op' = <<"alias", k - 1, j - 1, p>> /\ e' = [op |-> "alias", k |-> k, j |-> j, p |-> p]
RawA(k, j, p) == Put(Inc(cb, s[j].o), k, [o |-> s[j].o, p |-> IF p = 0 THEN 0 ELSE 3]) /\ op' = <<"raw", k - 1, j - 1, p>> /\ e' = [op |-> "raw", k |-> k, j |-> j, p |-> p]
Copy(k, j) == Put(Inc(cb, s[j].o), k, s[j]) /\ op' = <<"copy", k - 1, j - 1>> /\ e' = [op |-> "copy", k |-> k, j |-> j]
Move(k, j) == k # j /\ s' = [s EXCEPT ![k] = s[j], ![j] = Null] /\ cb' = Dec(cb, s[k].o) /\ UNCHANGED w /\ op' = <<"move", k - 1, j - 1>> /\ e' = [op |-> "move", k |-> k, j |-> j]
Reset(k) == Put(cb, k, Null) /\ op' = <<"reset", k - 1>> /\ e' = [op |-> "reset", k |-> k]
\* shared_from: a pointer made from the object's weak pointer to itself (counted), another made from it, the first dropped
Can(j) == s[j].o # 0 /\ cb[s[j].o].own
From2(k, j, p) == Can(j) /\ LET i == s[j].o t == Inc(Inc(cb, i), i) IN Put(Dec(t, i), k, [o |-> i, p |-> p]) /\ op' = <<"sf", k - 1, j - 1, p, k % 2>> /\ e' = [op |-> "sf", k |-> k, j |-> j, p |-> p]
WFrom(j, p) == Can(j) /\ LET i == s[j].o IN w' = <<[o |-> i, p |-> p]>> /\ cb' = WDec(WInc(Dec(Inc(cb, i), i), i), w[1].o) /\ UNCHANGED s
               /\ op' = <<"wf", 0, j - 1, p>> /\ e' = [op |-> "wf", j |-> j, p |-> p]
LockW(k) == LET ok == w[1].o # 0 /\ cb[w[1].o].sc > 0 IN Put(IF ok THEN Inc(cb, w[1].o) ELSE cb, k, IF ok THEN w[1] ELSE Null) /\ op' = <<"lock", k - 1, 0>> /\ e' = [op |-> "lock", k |-> k]
WReset == w' = <<Null>> /\ cb' = WDec(cb, w[1].o) /\ UNCHANGED s /\ op' = <<"wreset", 0>> /\ e' = [op |-> "wreset"]
Next == \/ \E k \in 1..N : \/ New(k, TRUE) \/ (k < 3 /\ New(k, FALSE)) \/ Reset(k) \/ LockW(k)
                           \/ \E j \in 1..N : Copy(k, j) \/ Move(k, j) \/ (\E p \in {0, 3} : RawA(k, j, p)) \/ (\E p \in {0, 3} : Alias(k, j, p)) \/ (\E p \in {1} : From2(k, j, p))
        \/ \E j \in 1..N : \E p \in {1} : WFrom(j, p)
        \/ WReset
Spec == Init /\ [][Next]_vars
Inv == \A i \in Ids : /\ cb[i].live = (i \in Alive(s))
                      /\ cb[i].sc = Cardinality({k \in 1..3 : s[k].o = i})
                      /\ cb[i].wc = (IF w[1].o = i THEN 1 ELSE 0) + (IF cb[i].live /\ cb[i].own THEN 1 ELSE 0)
Obeys == [][/\ \A k \in 1..3 : cb'[IF s'[k].o = 0 THEN 1 ELSE s'[k].o].sc = Count(s', k) \/ s'[k].o = 0
            /\ CASE e'.op = "alias" -> s' = [s EXCEPT ![e'.k] = Aliased(s[e'.j], e'.p)]
                 [] e'.op = "raw" -> s' = [s EXCEPT ![e'.k] = Raw(s[e'.j], e'.p)]
                 [] e'.op = "sf" -> s' = [s EXCEPT ![e'.k] = From(s[e'.j], e'.p)]
                 [] e'.op = "wf" -> w' = <<From(s[e'.j], e'.p)>>
                 [] e'.op = "lock" -> s' = [s EXCEPT ![e'.k] = Lock(s, w[1])]
                 [] OTHER -> TRUE]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
