-------------------------------- MODULE UMapMC --------------------------------
(* A hash table - chains of entries in buckets - searched by values of other key  *)
(* types, checked to be the map of UMap for every hash which respects the          *)
(* equivalence.  Every transition of the map is printed for replay.                *)
EXTENDS UMap, TLC, Json
CONSTANTS Keys, Buckets, Eqs
VARIABLES t, eq, op, res
vars == <<t, eq, op, res>>
\* t[x][b]: the chain of bucket b of map x
Range(q) == {q[i] : i \in 1..Len(q)}
MapOf(tt, x) == UNION {Range(tt[x][b]) : b \in 0..(Buckets - 1)}
Map(x) == MapOf(t, x)
Hash(c) == c % Buckets
Init == eq \in Eqs /\ t = [x \in 1..2 |-> [b \in 0..(Buckets - 1) |-> <<>>]] /\ op = <<"init">> /\ res = Res({}, -1, None, "")
View == <<eq, [x \in 1..2 |-> Map(x)]>>
\* walking the chain of the bucket the given key hashes to
RECURSIVE Walk(_, _, _)
Walk(ch, c, i) == IF i > Len(ch) THEN 0 ELSE IF Cls(eq, ch[i][1]) = c THEN i ELSE Walk(ch, c, i + 1)
Find(x, kk, k) == LET c == KCls(eq, kk, k) IN <<Hash(c), Walk(t[x][Hash(c)], c, 1)>>
Put(x, b, ch) == t' = [t EXCEPT ![x][b] = ch]
TryEmplace(x, kk, k, v, set, nm) ==
  LET f == Find(x, kk, k)
      ch == t[x][f[1]] IN
  IF f[2] # 0 THEN /\ IF set THEN Put(x, f[1], [ch EXCEPT ![f[2]] = <<@[1], v>>]) ELSE UNCHANGED t
                   /\ res' = Res({}, IF nm \in {"te", "te0", "ins", "ioa"} THEN 0 ELSE -1, IF set THEN <<ch[f[2]][1], v>> ELSE ch[f[2]], "")
  ELSE \* hashing again, by the key constructed
       LET b == Hash(Cls(eq, KeyOf(kk, k)))
           e == <<KeyOf(kk, k), v>> IN
       /\ Put(x, b, <<e>> \o t[x][b]) /\ res' = Res({}, IF nm \in {"te", "te0", "ins", "ioa"} THEN 1 ELSE -1, e, "")
At(x, kk, k) == LET f == Find(x, kk, k) IN
  res' = (IF f[2] = 0 THEN Res({}, -1, None, "oor") ELSE Res({}, -1, t[x][f[1]][f[2]], "")) /\ UNCHANGED t
Erase(x, kk, k) == LET f == Find(x, kk, k)
                       ch == t[x][f[1]] IN
  IF f[2] = 0 THEN res' = Res({}, 0, None, "") /\ UNCHANGED t
  ELSE Put(x, f[1], SubSeq(ch, 1, f[2] - 1) \o SubSeq(ch, f[2] + 1, Len(ch))) /\ res' = Res({}, 1, None, "")
KeysOf(kk) == IF kk = 5 THEN {k \div 10 : k \in Keys} ELSE Keys
Kinds == IF eq = 10 THEN 0..7 ELSE 0..7 \ {5}
Next == /\ eq' = eq
        /\ \/ \E kk \in Kinds : \E k \in KeysOf(kk) :
                \/ \E nm \in {"te", "teh"} : TryEmplace(1, kk, k, 1, FALSE, nm) /\ op' = <<nm, 1, kk, k, 1>>
                \/ \E nm \in {"te0", "teh0", "idx"} : TryEmplace(1, kk, k, 0, FALSE, nm) /\ op' = <<nm, 1, kk, k, 0>>
                \/ TryEmplace(1, kk, k, 1, TRUE, "idxset") /\ op' = <<"idxset", 1, kk, k, 1>>
                \/ \E nm \in {"at", "cat"} : At(1, kk, k) /\ op' = <<nm, 1, kk, k, 0>>
           \/ \E k \in Keys : \E x \in 1..2 : TryEmplace(x, 0, k, x - 1, FALSE, "ins") /\ op' = <<"ins", x, 0, k, x - 1>>
           \/ \E k \in Keys : TryEmplace(1, 0, k, 1, TRUE, "ioa") /\ op' = <<"ioa", 1, 0, k, 1>>
           \/ \E k \in Keys : \E x \in 1..2 : Erase(x, 0, k) /\ op' = <<"er", x, 0, k, 0>>
           \/ res' = Res({}, -1, None, "") /\ \E nm \in {"swap", "c_copy", "a_copy", "c_move", "a_move"} :
                /\ op' = <<nm, 1, 0, 0, 0>>
                /\ t' = CASE nm = "swap" -> <<t[2], t[1]>> [] nm \in {"c_copy", "a_copy"} -> <<t[2], t[2]>>
                          [] OTHER -> <<t[2], [b \in 0..(Buckets - 1) |-> <<>>]>>
Spec == Init /\ [][Next]_vars
Inv == \A x \in 1..2 : Unique(eq, Map(x)) /\ \A b \in 0..(Buckets - 1) : \A i \in 1..Len(t[x][b]) : Hash(Cls(eq, t[x][b][i][1])) = b
\* the table does what the map does
Asked == [op |-> op'[1], kk |-> op'[3], k |-> op'[4], v |-> op'[5]]
Obeys == [][op'[1] \notin {"swap", "c_copy", "a_copy", "c_move", "a_move"} =>
            LET r == Effect(Asked, eq, Map(op'[2]))
                q == [m |-> {}, in |-> r.in, e |-> r.e, x |-> r.x] IN
            MapOf(t', op'[2]) = r.m /\ res' = q /\ MapOf(t', 3 - op'[2]) = Map(3 - op'[2])]_vars
Emit == IF Map(2) = {} \/ op'[1] \in {"swap", "c_copy", "a_copy", "c_move", "a_move"} \/ op'[1] \in {"ins", "er", "ioa"} \/ (op'[1] \in {"te", "te0"} /\ op'[3] = 5)
        THEN PrintT("EDGE " \o ToJson(<<View, op', View'>>)) ELSE TRUE
=============================================================================
