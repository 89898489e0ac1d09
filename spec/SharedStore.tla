------------------------------ MODULE SharedStore ------------------------------
(* A storage of one reference shared by threads. Pointees are numbered, 0 is none. *)
(* s: what is stored; R[t]: the references thread t has in its registers; P[t]: its  *)
(* operations under way, innermost last (the destructor of a pointee may use the      *)
(* storage): f, r, q as called, n the new pointee given, lin whether it took effect,   *)
(* res what it took out, ok whether it succeeded. dead: destroyed pointees.            *)
(* A reference owns one pointee and points to it, or (100 and more) to another object    *)
(* which it doesn't own, or (900 and more) to nothing.                                   *)
EXTENDS Integers, Sequences, FiniteSets
Threads == 0..3
Fresh(hasR) == [s |-> 0, R |-> [t \in Threads |-> <<0, 0, 0>>], P |-> [t \in Threads |-> <<>>], dead |-> {}, made |-> {}, gone |-> FALSE]
Owner(v) == v % 100
Target(v) == IF v < 100 THEN v ELSE IF v >= 900 THEN 0 ELSE v - Owner(v)
Alias(k, v) == IF k = 9 /\ Owner(v) = 0 THEN 0 ELSE 100 * k + Owner(v)
Given(st, t, o) == IF o.n # 0 THEN o.n ELSE IF o.f \in {"store", "mstore", "xchg"} THEN o.arg ELSE IF o.f = "cas" THEN st.R[t][o.q + 1] ELSE 0
Expected(st, t, o) == st.R[t][o.r + 1]
\* the registers of t an operation under way no longer relies on
Loose(o) == CASE o.f \in {"load"} /\ o.lin -> {o.r + 1}
              [] o.f \in {"xchg", "nxchg"} /\ o.lin -> {o.q + 1}
              [] o.f \in {"cas", "ncas"} /\ o.lin /\ ~o.ok -> {o.r + 1}
              [] o.f \in {"new", "drop", "mstore"} -> {o.r + 1}
              [] o.f \in {"dup", "alias"} -> {o.q + 1}
              [] OTHER -> {}
HeldBy(o) == \* what an operation under way keeps alive besides the registers
  (IF ~o.lin THEN {o.n, o.arg} ELSE {}) \cup (IF o.lin /\ o.keep THEN {o.res} ELSE {})
Held(st) == {Owner(v) : v \in
  (IF st.gone THEN {} ELSE {st.s}) \cup
  UNION {LET loose == UNION {Loose(st.P[t][k]) : k \in 1..Len(st.P[t])} IN
         {st.R[t][i] : i \in (1..3) \ loose} \cup UNION {HeldBy(st.P[t][k]) : k \in 1..Len(st.P[t])} : t \in Threads}}
Linear == {"load", "store", "mstore", "nstore", "xchg", "nxchg", "cas", "ncas", "nload", "nxchgd", "init"}
Call(st, t, f, r, q, n, e) ==
  LET arg == IF f \in {"store", "mstore", "xchg"} THEN st.R[t][r + 1] ELSE IF f = "cas" THEN st.R[t][q + 1] ELSE IF f = "dup" THEN st.R[t][r + 1] ELSE IF f = "alias" THEN Alias(e, st.R[t][r + 1]) ELSE 0
      o == [f |-> f, r |-> r, q |-> q, n |-> n, arg |-> arg, lin |-> FALSE, res |-> 0, ok |-> TRUE, keep |-> FALSE] IN
  [st EXCEPT !.P[t] = Append(@, o), !.made = IF n # 0 THEN @ \cup {n} ELSE @]
Top(st, t) == st.P[t][Len(st.P[t])]
CanLin(st, t) == st.P[t] # <<>> /\ ~Top(st, t).lin /\ Top(st, t).f \in Linear
\* compare and exchange succeeds for the very reference stored, and fails if it points elsewhere. For one which points to the same object but
\* owns another, one standard compares what they point to, the next also what they own.
MayOk(st, t) == IF Top(st, t).f \notin {"cas", "ncas"} THEN {TRUE}
                ELSE LET x == Expected(st, t, Top(st, t)) IN IF st.s = x THEN {TRUE} ELSE IF Target(st.s) = Target(x) THEN BOOLEAN ELSE {FALSE}
Lin(st, t, ok) ==
  LET o == Top(st, t)  k == Len(st.P[t])  g == IF o.n # 0 THEN o.n ELSE o.arg IN
  CASE o.f \in {"load", "nload"} -> [st EXCEPT !.P[t][k] = [o EXCEPT !.lin = TRUE, !.res = st.s, !.keep = TRUE]]
    [] o.f \in {"store", "mstore", "nstore", "init"} -> [st EXCEPT !.s = g, !.P[t][k] = [o EXCEPT !.lin = TRUE, !.res = st.s]]
    [] o.f \in {"xchg", "nxchg"} -> [st EXCEPT !.s = g, !.P[t][k] = [o EXCEPT !.lin = TRUE, !.res = st.s, !.keep = (o.q >= 0)]]
    [] o.f \in {"cas", "ncas"} ->
         IF ok THEN [st EXCEPT !.s = g, !.P[t][k] = [o EXCEPT !.lin = TRUE, !.res = st.s, !.ok = TRUE]]
         ELSE [st EXCEPT !.P[t][k] = [o EXCEPT !.lin = TRUE, !.res = st.s, !.ok = FALSE, !.keep = TRUE]]
\* the end of an operation: the registers of the thread afterwards
Regs(st, t) ==
  LET o == Top(st, t)  R == st.R[t] IN
  CASE o.f = "load" -> [R EXCEPT ![o.r + 1] = o.res]
    [] o.f \in {"xchg", "nxchg"} /\ o.q >= 0 -> [R EXCEPT ![o.q + 1] = o.res]
    [] o.f = "mstore" \/ o.f = "drop" -> [R EXCEPT ![o.r + 1] = 0]
    [] o.f \in {"cas", "ncas"} /\ ~o.ok -> [R EXCEPT ![o.r + 1] = o.res]
    [] o.f = "new" -> [R EXCEPT ![o.r + 1] = o.n]
    [] o.f \in {"dup", "alias"} -> [R EXCEPT ![o.q + 1] = o.arg]
    [] OTHER -> R
Result(o) == CASE o.f \in {"load", "nload"} -> o.res
               [] o.f \in {"xchg", "nxchg"} -> IF o.q >= 0 THEN o.res ELSE 0
               [] o.f \in {"cas", "ncas"} -> IF o.ok THEN 1 ELSE 0
               [] OTHER -> 0
CanReturn(st, t) == st.P[t] # <<>> /\ (Top(st, t).f \in Linear => Top(st, t).lin)
Return(st, t) == [st EXCEPT !.R[t] = Regs(st, t), !.P[t] = SubSeq(@, 1, Len(@) - 1)]
\* safety: nothing referenced is dead
Alive(st) == Held(st) \cap st.dead = {}
=============================================================================
