------------------------------- MODULE CounterMC -------------------------------
(* With Seq: whole calls on one counter of one digit, from every value, every           *)
(* transition replayed. Without: calls of N threads in every interleaving of their       *)
(* steps: what was added is there in the end, and the results of increments differ.        *)
EXTENDS Counter, TLC, Json, FiniteSets
CONSTANTS N, W, Calls, Whole
VARIABLES x, left, sum, got, op
vars == <<x, left, sum, got, op>>
View == IF Whole THEN x.V[1][1] ELSE <<x, left, sum, got>>
RECURSIVE Num(_)
Num(a) == IF a = <<>> THEN 0 ELSE Head(a) + Base * Num(Tail(a))
RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN <<>> ELSE <<n % Base>> \o Digits(n \div Base, w - 1)
All == Base^W
Th == 1..N
Fs == {"inc", "pinc", "dec", "pdec", "add", "sub", "load", "copy", "store", "set", "conv"}
Ns == {0, 1, Base \div 2 - 1, Base \div 2, Base - 1}
Args(f) == IF f \in {"add", "sub", "store", "set"} THEN Ns ELSE {0}
Init == x = Fresh(W) /\ left = [t \in Th |-> Calls] /\ sum = 0 /\ got = <<>> /\ op = <<"init">>
All1(f, n) == LET a == Call(x, 1, f, 1, 2, Digits(n, W)) IN x' = Return(Lin(a, 1), 1) /\ op' = <<f, 0, 0, n>> /\ UNCHANGED <<left, sum, got>>
Start(t) == /\ x.P[t] = <<>> /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \E f \in {"inc", "pinc", "add", "sub", "load"} : x' = Call(x, t, f, 1, 2, Digits(Base + 1, W))
            /\ UNCHANGED <<sum, got, op>>
Effect(t) == /\ CanLin(x, t) /\ x' = Lin(x, t) /\ UNCHANGED <<left, op>>
             /\ LET p == x.P[t][1]  d == Num(New(p.f, Zero(W), p.n)) IN sum' = (sum + d) % All
             /\ got' = IF x.P[t][1].f = "inc" THEN Append(got, Num(x'.P[t][1].res)) ELSE got
Done(t) == x.P[t] # <<>> /\ ~CanLin(x, t) /\ x' = Return(x, t) /\ UNCHANGED <<left, sum, got, op>>
Next == IF Whole THEN \E f \in Fs : \E n \in Args(f) : All1(f, n) ELSE \E t \in Th : Start(t) \/ Effect(t) \/ Done(t)
Spec == Init /\ [][Next]_vars
Inv == /\ ~Whole => Num(x.V[1]) = sum
       /\ \A n \in Ns : Num(Add(x.V[1], Digits(n, W))) = (Num(x.V[1]) + n) % All /\ Num(Sub(x.V[1], Digits(n, W))) = (Num(x.V[1]) + All - n) % All
Emit == ~Whole \/ PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
