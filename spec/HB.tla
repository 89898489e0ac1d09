---------------------------------- MODULE HB ----------------------------------
(* Happens-before by vector clocks, for accesses recorded in the order in which    *)
(* they took place: a plain access must be ordered after the conflicting ones.      *)
EXTENDS Integers, Sequences, FiniteSets
Ts == 0..4
Zero == [u \in Ts |-> 0]
Max2(a, b) == IF a < b THEN b ELSE a
Join(a, b) == [u \in Ts |-> Max2(a[u], b[u])]
Leq(a, b) == \A u \in Ts : a[u] <= b[u]
Fresh == [c |-> [t \in Ts |-> [Zero EXCEPT ![t] = 1]], rel |-> <<>>, acq |-> [t \in Ts |-> Zero], frel |-> [t \in Ts |-> Zero], w |-> <<>>, r |-> <<>>]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Zero
Put(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]
Acq(o) == o \in {"acq", "ar"}
Rel(o) == o \in {"rel", "ar"}
Tick(h, t) == [h EXCEPT !.c[t][t] = @ + 1]
Load(h, t, x, o) == IF Acq(o) THEN [h EXCEPT !.c[t] = Join(@, Get(h.rel, x))] ELSE [h EXCEPT !.acq[t] = Join(@, Get(h.rel, x))]
Store(h, t, x, o, keep) == \* keep: a read-modify-write continues the release sequence
  LET own == IF Rel(o) THEN h.c[t] ELSE h.frel[t]
      v == IF keep THEN Join(Get(h.rel, x), own) ELSE own IN
  Tick([h EXCEPT !.rel = Put(@, x, v)], t)
Fence(h, t, o) ==
  LET a == IF Acq(o) THEN [h EXCEPT !.c[t] = Join(@, h.acq[t])] ELSE h IN
  IF Rel(o) THEN [a EXCEPT !.frel[t] = a.c[t]] ELSE a
ReadOk(h, t, x) == Leq(Get(h.w, x), h.c[t])
WriteOk(h, t, x) == Leq(Get(h.w, x), h.c[t]) /\ Leq(Get(h.r, x), h.c[t])
Access(E, h) ==
  CASE E.k = "r" -> [h EXCEPT !.r = Put(@, E.x, [Get(h.r, E.x) EXCEPT ![E.t] = h.c[E.t][E.t]])]
    [] E.k = "w" -> [h EXCEPT !.w = Put(@, E.x, [Zero EXCEPT ![E.t] = h.c[E.t][E.t]])]
    [] E.k = "al" -> Load(h, E.t, E.x, E.o)
    [] E.k = "as" -> Store(h, E.t, E.x, E.o, FALSE)
    [] E.k = "au" -> Store(Load(h, E.t, E.x, E.o), E.t, E.x, E.o, TRUE)
    [] E.k = "f" -> Fence(h, E.t, E.o)
Allowed(E, h) == CASE E.k = "r" -> ReadOk(h, E.t, E.x) [] E.k = "w" -> WriteOk(h, E.t, E.x) [] OTHER -> TRUE
Go(h) == [h EXCEPT !.c = [t \in Ts |-> IF t = 0 THEN [h.c[0] EXCEPT ![0] = @ + 1] ELSE Join(h.c[0], [Zero EXCEPT ![t] = 1])]]
JoinAll(h) == [h EXCEPT !.c[0] = [u \in Ts |-> LET m == {h.c[t][u] : t \in Ts} IN CHOOSE x \in m : \A y \in m : y <= x]]
=============================================================================
