-------------------------------- MODULE UMap --------------------------------
(* An unordered map from keys to values: a set of entries <<key, value>>, no two *)
(* of them with equivalent keys.  Keys are numbers; they are equivalent when      *)
(* equal (eq = 1) or when they agree in their tens (eq = 10).  An operation names  *)
(* a key by a value of one of several types, kk:                                  *)
(*   0 the key, constant; 1 the key, temporary; 2, 3, 4 a view of it (temporary,   *)
(*   constant, variable); 5 the tens only, equivalent to a key by that alone;       *)
(*   6 something which only converts to the key; 7 a temporary a key can be made of, *)
(*   which is emptied by that                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Cls(eq, k) == IF eq = 10 THEN k \div 10 ELSE k
KCls(eq, kk, k) == IF kk = 5 THEN k ELSE Cls(eq, k)
KeyOf(kk, k) == IF kk = 5 THEN 10 * k ELSE k
Hits(eq, m, kk, k) == {e \in m : Cls(eq, e[1]) = KCls(eq, kk, k)}
The(eq, m, kk, k) == CHOOSE e \in Hits(eq, m, kk, k) : TRUE
Unique(eq, m) == \A e, f \in m : Cls(eq, e[1]) = Cls(eq, f[1]) => e = f
None == <<-1, -1>>
Res(m, in, e, x) == [m |-> m, in |-> in, e |-> e, x |-> x]
(* the map afterwards, whether something was inserted (or how many entries there are or went, or -1), the entry the result denotes, the exception *)
Emplace(eq, m, kk, k, v) == IF Hits(eq, m, kk, k) # {} THEN Res(m, 0, The(eq, m, kk, k), "")
                            ELSE Res(m \cup {<<KeyOf(kk, k), v>>}, 1, <<KeyOf(kk, k), v>>, "")
Throws == 77   \* a value which cannot be constructed
Effect(E, eq, m) ==
  LET h == Hits(eq, m, E.kk, E.k)
      t == The(eq, m, E.kk, E.k)
      to == <<t[1], E.v>>
  IN
  CASE E.op \in {"te", "teh", "ins", "emp"} -> IF E.v = Throws /\ (h = {} \/ E.op \in {"ins", "emp"}) THEN Res(m, -1, None, "boom")
                                       ELSE LET r == Emplace(eq, m, E.kk, E.k, E.v) IN IF E.op = "teh" THEN [r EXCEPT !.in = -1] ELSE r
    [] E.op \in {"te0", "idx", "teh0"} -> LET r == Emplace(eq, m, E.kk, E.k, 0) IN IF E.op = "te0" THEN r ELSE [r EXCEPT !.in = -1]
    [] E.op \in {"idxset", "ioa"} -> LET r == IF h # {} THEN Res((m \ {t}) \cup {to}, 0, to, "") ELSE Emplace(eq, m, E.kk, E.k, E.v) IN IF E.op = "ioa" THEN r ELSE [r EXCEPT !.in = -1]
    [] E.op \in {"at", "cat"} -> IF h # {} THEN Res(m, -1, t, "") ELSE Res(m, -1, None, "oor")
    [] E.op = "atset" -> IF h # {} THEN Res((m \ {t}) \cup {to}, -1, to, "") ELSE Res(m, -1, None, "oor")
    [] E.op = "find" -> Res(m, Cardinality(h), IF h # {} THEN t ELSE None, "")
    [] E.op = "er" -> Res(m \ h, Cardinality(h), None, "")
    [] E.op = "clear" -> Res({}, -1, None, "")
    [] E.op \in {"rehash", "obs"} -> Res(m, -1, None, "")
=============================================================================
