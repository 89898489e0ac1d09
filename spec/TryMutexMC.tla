------------------------------ MODULE TryMutexMC ------------------------------
(* Two models. With Steps: the algorithm (an inner mutex around owner and depth)     *)
(* in every interleaving, refining TryMutex. Without: whole calls one after another,   *)
(* every transition of which is replayed on the real code.                              *)
EXTENDS TryMutex, TLC, Json
CONSTANTS N, MaxD, Steps
VARIABLES x, inner, owner, depth, pc, res, op
vars == <<x, inner, owner, depth, pc, res, op>>
View == IF Steps THEN <<x, inner, owner, depth, pc, res>> ELSE <<x.o, x.d>>
Th == 1..N
Init == x = Fresh /\ inner = 0 /\ owner = 0 /\ depth = 0 /\ pc = [t \in Th |-> "idle"] /\ res = [t \in Th |-> 0] /\ op = <<"init">>
Holds(t) == x.o = t
Start(t) == /\ pc[t] = "idle"
            /\ \E f \in {"try", "unlock"} : (f = "unlock" => owner = t) /\ (f = "try" => depth < MaxD) /\ x' = Call(x, t, f) /\ pc' = [pc EXCEPT ![t] = "lock"]
            /\ UNCHANGED <<inner, owner, depth, res, op>>
Lock(t) == pc[t] = "lock" /\ inner = 0 /\ inner' = t /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<x, owner, depth, res, op>>
Look(t) == \* under the inner mutex: the effect, and in the specification too
  /\ pc[t] = "look" /\ x' = Lin(x, t)
  /\ IF x.P[t][1].f = "try"
     THEN IF owner = 0 THEN owner' = t /\ pc' = [pc EXCEPT ![t] = "deep"] /\ res' = [res EXCEPT ![t] = 1]
          ELSE IF owner = t THEN UNCHANGED owner /\ pc' = [pc EXCEPT ![t] = "deep"] /\ res' = [res EXCEPT ![t] = 1]
          ELSE UNCHANGED owner /\ pc' = [pc EXCEPT ![t] = "rel"] /\ res' = [res EXCEPT ![t] = 0]
     ELSE pc' = [pc EXCEPT ![t] = "shallow"] /\ UNCHANGED <<owner, res>>
  /\ UNCHANGED <<inner, depth, op>>
Deep(t) == pc[t] = "deep" /\ depth' = depth + 1 /\ pc' = [pc EXCEPT ![t] = "rel"] /\ UNCHANGED <<x, inner, owner, res, op>>
Shallow(t) == pc[t] = "shallow" /\ depth' = depth - 1 /\ pc' = [pc EXCEPT ![t] = "clear"] /\ UNCHANGED <<x, inner, owner, res, op>>
Clear(t) == pc[t] = "clear" /\ owner' = (IF depth = 0 THEN 0 ELSE owner) /\ pc' = [pc EXCEPT ![t] = "rel"] /\ UNCHANGED <<x, inner, depth, res, op>>
Release(t) == pc[t] = "rel" /\ inner' = 0 /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<x, owner, depth, res, op>>
Ret(t) == pc[t] = "ret" /\ CanReturn(x, t, res[t]) /\ x' = Return(x, t) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<inner, owner, depth, res, op>>
Whole(t, f) == /\ (f = "unlock" => x.o = t) /\ (f = "try" /\ x.o = t => x.d < MaxD)
               /\ x' = Return(Lin(Call(x, t, f), t), t) /\ op' = <<f, t - 1>> /\ UNCHANGED <<inner, owner, depth, pc, res>>
Next == IF Steps THEN \E t \in Th : Start(t) \/ Lock(t) \/ Look(t) \/ Deep(t) \/ Shallow(t) \/ Clear(t) \/ Release(t) \/ Ret(t)
        ELSE \E t \in Th, f \in {"try", "unlock"} : Whole(t, f)
Spec == Init /\ [][Next]_vars
Inv == /\ (Steps /\ inner = 0 => owner = x.o /\ depth = x.d)
       /\ (x.o = 0 <=> x.d = 0)
       /\ \A t \in Th : pc[t] = "ret" => CanReturn(x, t, res[t])
Emit == Steps \/ PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
