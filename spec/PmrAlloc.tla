-------------------------------- MODULE PmrAlloc --------------------------------
(* Allocators over memory resources.                                              *)
(*   al[k]   the resource of allocator k       def   the default resource          *)
(*   blocks  memory outstanding: [b, n (bytes, two digits), a (alignment), r, w]    *)
(*           w: how it was asked for, <<"bytes"|"elems"|"objs"|"obj", type, count>>  *)
(*   live    objects in memory of the resources: <<block, place>>                   *)
(*   h[c]    containers: [r, n], the resource which they use and their size; r = 0: none *)
(* The log of an operation is a sequence of events at the resources and of objects: *)
(*   <<5, b, nh, nl, a, r>> block b allocated by r     <<6, ...>> returned to r       *)
(*   <<8, 0, nh, nl, a, r>> refused by r               <<1, b, x>> object constructed, <<2, b, x>> destroyed, <<3|4, b, x>> assigned, read *)
EXTENDS Integers, Sequences, FiniteSets
Digit == 1048576
Sizes == <<1, 4, 24, 64, 200, 4, 64, 4>>          \* 1..5 plain types, 6..8 objects of kinds 1..3
Aligns == <<1, 4, 8, 64, 8, 4, 64, 4>>
MaxAlign == 16
Bytes(c, size) == LET lo == c[2] * size IN <<(lo \div Digit) + c[1] * size, lo % Digit>>
One == <<0, 1>>

EvOK(m, v) ==
  CASE v[1] = 1 -> <<v[2], v[3]>> \notin m.live /\ v[3] >= 0
    [] v[1] \in {2, 3, 4} -> <<v[2], v[3]>> \in m.live
    [] v[1] = 5 -> ~ \E x \in m.blocks : x[1] = v[2]
    [] v[1] = 6 -> /\ \E x \in m.blocks : x = Tail(v)           \* the same bytes, alignment, resource
                   /\ ~ \E s \in m.live : s[1] = v[2]
    [] v[1] = 8 -> TRUE
    [] OTHER -> FALSE
EvStep(m, v) ==
  CASE v[1] = 1 -> [m EXCEPT !.live = @ \cup {<<v[2], v[3]>>}]
    [] v[1] = 2 -> [m EXCEPT !.live = @ \ {<<v[2], v[3]>>}]
    [] v[1] = 5 -> [m EXCEPT !.blocks = @ \cup {Tail(v)}]
    [] v[1] = 6 -> [m EXCEPT !.blocks = @ \ {Tail(v)}]
    [] OTHER -> m
RECURSIVE EvFold(_, _, _)
EvFold(m, log, k) == IF k > Len(log) THEN [m |-> m, ok |-> TRUE] ELSE IF ~EvOK(m, log[k]) THEN [m |-> m, ok |-> FALSE] ELSE EvFold(EvStep(m, log[k]), log, k + 1)
MemInit == [live |-> {}, blocks |-> {}]
Kinds(log) == [k \in 1..Len(log) |-> log[k][1]]
At(log, kinds) == SelectSeq(log, LAMBDA v : v[1] \in kinds)

(* What one request must do at resource r: the log of a success, of a refusal *)
Asked(log, n, a, r) == Len(log) = 1 /\ log[1][1] = 5 /\ <<log[1][3], log[1][4]>> = n /\ log[1][5] = a /\ log[1][6] = r
Refused(log, n, a, r) == log = <<<<8, 0, n[1], n[2], a, r>>>>
Returned(log, blk) == log = <<<<6>> \o blk>>
(* bytes and alignment of a request w = <<kind, type or alignment, count>> *)
NeedN(w) == IF w[1] = "bytes" THEN w[3] ELSE Bytes(w[3], Sizes[w[2]])
NeedA(w) == IF w[1] = "bytes" THEN (IF w[2] = 0 THEN MaxAlign ELSE w[2]) ELSE Aligns[w[2]]
\* a request for objects or elements (not bytes) whose number of bytes does not fit
Overflows(w) == w[3] = <<>>
Plain(e, r, w) == \* bytes, elems, objs: outcome e.ex with the log e.log
  IF Overflows(w) THEN e.ex = "alloc" /\ e.log = <<>>
  ELSE \/ e.ex = "" /\ e.al /\ Asked(e.log, NeedN(w), NeedA(w), r)
       \/ e.ex = "alloc" /\ (e.fz < 0 \/ NeedN(w)[1] >= 64) /\ Refused(e.log, NeedN(w), NeedA(w), r)      \* the resources have 64 megabytes
New(e, r, t) == \* new_object of kind t from the value e.v
  LET n == <<0, Sizes[t]>> a == Aligns[t] IN
  \/ e.ex = "" /\ e.al /\ e.v = e.got /\ Len(e.log) = 2 /\ Asked(SubSeq(e.log, 1, 1), n, a, r) /\ e.log[2][1] = 1 /\ e.log[2][2] = e.log[1][2] /\ e.log[2][3] \in 0..7
  \/ e.ex = "alloc" /\ e.fz < 0 /\ Refused(e.log, n, a, r)
  \/ e.ex = "boom" /\ e.fz > 0 /\ Len(e.log) = 2 /\ Asked(SubSeq(e.log, 1, 1), n, a, r) /\ e.log[2] = <<6>> \o Tail(e.log[1])
Delete(e, blk) == Len(e.log) = 2 /\ e.log[1][1] = 2 /\ e.log[1][2] = blk[1] /\ e.log[1][3] \in 0..7 /\ e.log[2] = <<6>> \o blk
=============================================================================
