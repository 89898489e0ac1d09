------------------------------- MODULE TryMutex -------------------------------
(* A recursive mutex that is only ever tried. o: its owner, 0 if free; d: depth;   *)
(* P[t]: the call of thread t under way; n: uses of the data it guards so far.      *)
EXTENDS Integers, Sequences
Threads == 0..4
Fresh == [o |-> 0, d |-> 0, P |-> [t \in Threads |-> <<>>], n |-> 0]
Call(x, t, f) == [x EXCEPT !.P[t] = <<[f |-> f, lin |-> FALSE, ok |-> FALSE]>>]
CanLin(x, t) == x.P[t] # <<>> /\ ~x.P[t][1].lin /\ (x.P[t][1].f = "unlock" => x.o = t)
Lin(x, t) ==
  LET p == x.P[t][1] IN
  IF p.f = "try" THEN (IF x.o \in {0, t} THEN [x EXCEPT !.o = t, !.d = @ + 1, !.P[t] = <<[p EXCEPT !.lin = TRUE, !.ok = TRUE]>>]
                       ELSE [x EXCEPT !.P[t] = <<[p EXCEPT !.lin = TRUE]>>])
  ELSE [x EXCEPT !.d = @ - 1, !.o = (IF x.d = 1 THEN 0 ELSE t), !.P[t] = <<[p EXCEPT !.lin = TRUE, !.ok = TRUE]>>]
CanReturn(x, t, r) == x.P[t] # <<>> /\ x.P[t][1].lin /\ (x.P[t][1].f = "try" => (r = 1) = x.P[t][1].ok)
Return(x, t) == [x EXCEPT !.P[t] = <<>>]
=============================================================================
