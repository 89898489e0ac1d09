------------------------------- MODULE DataMutex -------------------------------
(* Data behind a mutex and the guards through which it is reached. own: the thread   *)
(* holding the mutex exclusively (0: none); sh[t]: how often t holds it shared;        *)
(* G[g]: guard g (alive or <<>>); P[t]: the call of t under way, with what the mutex    *)
(* was asked during it; val: the data.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
Threads == 1..4
Guards == 0..11
Kinds == {"U", "CU", "TU", "TCU", "S", "TS"}
Tries == {"TU", "TCU", "TS"}
Mode(k) == IF k \in {"S", "TS"} THEN "s" ELSE "x"
Writes(k) == k \in {"U", "TU"}
Fresh == [own |-> 0, sh |-> [t \in Threads |-> 0], G |-> [g \in Guards |-> <<>>], P |-> [t \in Threads |-> <<>>], val |-> 0, made |-> FALSE]
NoCall == [f |-> "", k |-> "", g |-> 0, h |-> 0, x |-> 0, s |-> 0, no |-> FALSE, threw |-> FALSE]
Begin(x, t, c) == [x EXCEPT !.P[t] = <<c>>]
Free(x) == x.own = 0 /\ \A t \in Threads : x.sh[t] = 0
NoX(x) == x.own = 0
CanAcquire(x, t, k, g) == x.made /\ x.P[t] = <<>> /\ x.G[g] = <<>>
Acquire(x, t, k, g) == Begin(x, t, [NoCall EXCEPT !.f = "acq", !.k = k, !.g = g])
CanEnd(x, t, g) == x.P[t] = <<>> /\ x.G[g] # <<>>
End(x, t, g) == Begin(x, t, [NoCall EXCEPT !.f = "end", !.g = g])
CanMove(x, t, g, h) == x.P[t] = <<>> /\ x.G[g] # <<>> /\ x.G[h] = <<>>
Move(x, t, g, h) == Begin(x, t, [NoCall EXCEPT !.f = "move", !.g = g, !.h = h])
(* what the mutex is asked to do: acquiring only for a guard being made, releasing only by a holder *)
CanAsk(x, t, c, res) ==
  /\ x.P[t] # <<>>
  /\ LET p == x.P[t][1] IN
     /\ c \in {"lock", "try_lock", "lock_shared", "try_lock_shared"} => p.f = "acq"
     /\ c \in {"lock", "lock_shared"} => p.k \notin Tries
     /\ c \in {"lock", "try_lock"} /\ res = "ok" => Free(x)
     /\ c \in {"lock_shared", "try_lock_shared"} /\ res = "ok" => NoX(x)
     /\ c = "unlock" => x.own = t
     /\ c = "unlock_shared" => x.sh[t] > 0
Ask(x, t, c, res) ==
  CASE res = "throw" -> [x EXCEPT !.P[t][1].threw = TRUE]
    [] res = "no" -> [x EXCEPT !.P[t][1].no = TRUE]
    [] c \in {"lock", "try_lock"} -> [x EXCEPT !.own = t, !.P[t][1].x = @ + 1]
    [] c \in {"lock_shared", "try_lock_shared"} -> [x EXCEPT !.sh[t] = @ + 1, !.P[t][1].s = @ + 1]
    [] c = "unlock" -> [x EXCEPT !.own = 0, !.P[t][1].x = @ - 1]
    [] c = "unlock_shared" -> [x EXCEPT !.sh[t] = @ - 1, !.P[t][1].s = @ - 1]
Net(p) == <<p.x, p.s>>
Of(m) == IF m = "x" THEN <<1, 0>> ELSE <<0, 1>>
Neg(m) == IF m = "x" THEN <<-1, 0>> ELSE <<0, -1>>
(* holds: the guard made says that it holds the mutex *)
CanReturn(x, t, holds, exc) ==
  /\ x.P[t] # <<>>
  /\ LET p == x.P[t][1] IN
     CASE p.f = "acq" -> IF p.threw THEN exc = "boom" /\ Net(p) = <<0, 0>>
                         ELSE exc = "" /\ (IF holds THEN Net(p) = Of(Mode(p.k)) ELSE p.k \in Tries /\ p.no /\ Net(p) = <<0, 0>>)
       [] p.f = "end" -> exc = "" /\ Net(p) = (IF x.G[p.g][1].held THEN Neg(Mode(x.G[p.g][1].k)) ELSE <<0, 0>>)
       [] p.f = "move" -> exc = "" /\ Net(p) = <<0, 0>> /\ ~p.no
Return(x, t, holds) ==
  LET p == x.P[t][1] IN
  CASE p.f = "acq" -> [x EXCEPT !.P[t] = <<>>, !.G[p.g] = IF p.threw THEN <<>> ELSE <<[k |-> p.k, t |-> t, held |-> holds]>>]
    [] p.f = "end" -> [x EXCEPT !.P[t] = <<>>, !.G[p.g] = <<>>]
    [] p.f = "move" -> [x EXCEPT !.P[t] = <<>>, !.G[p.h] = x.G[p.g], !.G[p.g][1].held = FALSE]
CanAccess(x, t, g, write) ==
  /\ x.G[g] # <<>> /\ x.G[g][1].held /\ (write => Writes(x.G[g][1].k))
  /\ (IF Mode(x.G[g][1].k) = "x" THEN x.own = t ELSE x.sh[t] > 0)
Sound(x) == \* what the guards hold is what the mutex is held for, when no call is under way
  (\A t \in Threads : x.P[t] = <<>>) =>
    /\ x.own = 0 <=> \A g \in Guards : x.G[g] = <<>> \/ ~x.G[g][1].held \/ Mode(x.G[g][1].k) = "s"
    /\ \A t \in Threads : x.sh[t] = Cardinality({g \in Guards : x.G[g] # <<>> /\ x.G[g][1].held /\ x.G[g][1].t = t /\ Mode(x.G[g][1].k) = "s"})
    /\ x.own # 0 => \A t \in Threads : x.sh[t] = 0
=============================================================================
