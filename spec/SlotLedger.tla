----------------------------- MODULE SlotLedger -----------------------------
(* Lifetime of element slots and ownership of memory blocks, as a state        *)
(* machine stepped by the micro events the instrumented elements and           *)
(* allocators emit inside one operation:                                        *)
(*   <<1,b,i>> construct   <<2,b,i>> destroy   <<3,b,i>> assign   <<4,b,i>> read *)
(*   <<5,b,n,a>> allocate  <<6,b,n,a>> deallocate                               *)
(* live: the slots <<b,i>> holding an object.  blocks: <<b,n,a>> outstanding.   *)
EXTENDS Integers, Sequences, FiniteSets

MemOK(m, mv) == \* is micro event mv allowed in memory state m
  CASE mv[1] = 1 -> <<mv[2], mv[3]>> \notin m.live /\ mv[3] >= 0
    [] mv[1] \in {2, 3, 4} -> <<mv[2], mv[3]>> \in m.live
    [] mv[1] = 5 -> TRUE
    [] mv[1] = 6 -> /\ \E blk \in m.blocks : blk[1] = mv[2] /\ blk[2] = mv[3] /\ blk[3] = mv[4]
                    /\ ~ \E s \in m.live : s[1] = mv[2]
    [] OTHER -> FALSE

MemStep(m, mv) ==
  CASE mv[1] = 1 -> [m EXCEPT !.live = @ \cup {<<mv[2], mv[3]>>}]
    [] mv[1] = 2 -> [m EXCEPT !.live = @ \ {<<mv[2], mv[3]>>}]
    [] mv[1] = 5 -> [m EXCEPT !.blocks = @ \cup {<<mv[2], mv[3], mv[4]>>}]
    [] mv[1] = 6 -> [m EXCEPT !.blocks = {blk \in @ : blk[1] # mv[2]}]
    [] OTHER -> m

(* Folds a whole log; bad = 0 if every event was allowed, else the index of the first bad one *)
RECURSIVE MemFold(_, _, _)
MemFold(m, log, k) ==
  IF k > Len(log) THEN [m |-> m, bad |-> 0]
  ELSE IF ~MemOK(m, log[k]) THEN [m |-> m, bad |-> k]
  ELSE MemFold(MemStep(m, log[k]), log, k + 1)

MemInit == [live |-> {}, blocks |-> {}]
Allocs(log) == {k \in 1..Len(log) : log[k][1] = 5}
=============================================================================
