------------------------------ MODULE DataMutexMC ------------------------------
(* Guards of two threads acquired, refused, failing, moved and ended in every order. *)
EXTENDS DataMutex, TLC, Json
VARIABLES x, op
vars == <<x, op>>
Slots(t) == IF t = 1 THEN {0, 1} ELSE {2}
Sl == {0, 1, 2}
View == <<x.own, <<x.sh[1], x.sh[2]>>, <<x.G[0], x.G[1], x.G[2]>>>>
Init == x = [Fresh EXCEPT !.made = TRUE] /\ op = <<"init">>
Asked(k) == CASE k \in {"U", "CU"} -> "lock" [] k \in {"TU", "TCU"} -> "try_lock" [] k = "S" -> "lock_shared" [] OTHER -> "try_lock_shared"
KindNo(k) == CASE k = "U" -> 0 [] k = "CU" -> 1 [] k = "TU" -> 2 [] k = "TCU" -> 3 [] k = "S" -> 4 [] OTHER -> 5
Could(k) == IF Mode(k) = "x" THEN Free(x) ELSE NoX(x)
Acq(t, g, k, throw) ==
  LET a == Acquire(x, t, k, g)
      res == IF throw THEN "throw" ELSE IF Could(k) THEN "ok" ELSE "no"
      b == Ask(a, t, Asked(k), res) IN
  /\ CanAcquire(x, t, k, g) /\ (res = "no" => k \in Tries) /\ CanAsk(a, t, Asked(k), res)
  /\ CanReturn(b, t, res = "ok", IF throw THEN "boom" ELSE "")
  /\ x' = Return(b, t, res = "ok") /\ op' = <<"acq", t - 1, g, KindNo(k), IF throw THEN 1 ELSE 0>>
Fin(t, g) ==
  LET a == End(x, t, g)
      b == IF x.G[g][1].held THEN Ask(a, t, IF Mode(x.G[g][1].k) = "x" THEN "unlock" ELSE "unlock_shared", "ok") ELSE a IN
  /\ CanEnd(x, t, g) /\ CanReturn(b, t, FALSE, "") /\ x' = Return(b, t, FALSE) /\ op' = <<"end", t - 1, g>>
Mov(t, g, h) == g # h /\ CanMove(x, t, g, h) /\ x' = Return(Move(x, t, g, h), t, FALSE) /\ op' = <<"mv", t - 1, g, h>>
Next == \E t \in 1..2 : \E g \in Slots(t) :
  \/ \E k \in Kinds, throw \in BOOLEAN : Acq(t, g, k, throw)
  \/ Fin(t, g)
  \/ \E h \in Slots(t) : Mov(t, g, h)
  \/ \E w \in BOOLEAN : CanAccess(x, t, g, w) /\ op' = <<IF w THEN "put" ELSE "get", t - 1, g>> /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Inv == Sound(x)
(* a guard that holds is the only way in, and it keeps others out *)
Exclusive == \A t, u \in 1..2 : \A g \in Slots(t), h \in Slots(u) : CanAccess(x, t, g, TRUE) /\ g # h => ~CanAccess(x, u, h, FALSE)
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
