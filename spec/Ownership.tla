-------------------------------- MODULE Ownership --------------------------------
(* Strong and weak pointers.  s[k] = [o |-> owner or 0, p |-> place];  w[k] the same. *)
(* Places: 0 null, 1 the object, 2 a part of it, 3 elsewhere, 4 another part (a base).  *)
(* An object lives while a strong pointer has it as its owner.                          *)
EXTENDS Integers, Sequences, FiniteSets
Null == [o |-> 0, p |-> 0]
Alive(s) == {s[k].o : k \in DOMAIN s} \ {0}
Count(s, k) == IF s[k].o = 0 THEN 0 ELSE Cardinality({j \in DOMAIN s : s[j].o = s[k].o})
\* a pointer to place p which shares the lifetime of what owner q has
Place(q, p) == IF p = 2 /\ q.o = 0 THEN 3 ELSE p
Aliased(q, p) == IF q.o = 0 THEN Null ELSE [o |-> q.o, p |-> p]
Raw(q, p) == [o |-> q.o, p |-> IF p = 0 THEN 0 ELSE 3]
From(q, p) == [o |-> q.o, p |-> p]
Lock(s, x) == IF x.o \in Alive(s) THEN x ELSE Null
=============================================================================
