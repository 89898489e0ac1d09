------------------------------- MODULE PmrAllocMC -------------------------------
(* The calls of allocators in the steps of the code (a call of the resource, the  *)
(* construction, the return of memory when that throws), over two resources and    *)
(* two allocators. Every outcome is one that PmrAlloc asks for, memory is           *)
(* outstanding exactly for the requests not yet returned, objects live in it.       *)
EXTENDS PmrAlloc, TLC, Json
VARIABLES al, def, out, m, op, e
vars == <<al, def, out, m, op, e>>
View == <<al, def, [i \in 1..Len(out) |-> <<out[i].w, out[i].r>>]>>
Init == al = <<1, 1>> /\ def = 1 /\ out = <<>> /\ m = MemInit /\ op = <<"init">> /\ e = [op |-> "init", log |-> <<>>]
NextId == CHOOSE i \in 1..4 : (~ \E x \in m.blocks : x[1] = i) /\ \A j \in 1..(i - 1) : \E x \in m.blocks : x[1] = j
\* steps
Alloc(w, r, fz) == IF Overflows(w) THEN [log |-> <<>>, ex |-> "alloc"]
                   ELSE IF fz < 0 THEN [log |-> <<<<8, 0, NeedN(w)[1], NeedN(w)[2], NeedA(w), r>>>>, ex |-> "alloc"]
                   ELSE [log |-> <<<<5, NextId, NeedN(w)[1], NeedN(w)[2], NeedA(w), r>>>>, ex |-> ""]
NewObj(w, r, fz) == LET a == Alloc(w, r, fz) IN
   IF a.ex # "" THEN a
   ELSE IF fz > 0 THEN [log |-> Append(a.log, <<6>> \o Tail(a.log[1])), ex |-> "boom"]
   ELSE [log |-> Append(a.log, <<1, a.log[1][2], w[2] - 5>>), ex |-> ""]
Ask(k, w, fz) ==
  LET a == IF w[1] = "newo" THEN NewObj(w, al[k], fz) ELSE Alloc(w, al[k], fz)
  IN /\ Len(out) < 2
     /\ e' = [op |-> w[1], k |-> k, fz |-> fz, ex |-> a.ex, al |-> TRUE, log |-> a.log, v |-> 7, got |-> 7, w |-> w]
     /\ m' = EvFold(m, a.log, 1).m
     /\ out' = IF a.ex = "" THEN Append(out, [id |-> a.log[1][2], w |-> w, r |-> al[k]]) ELSE out
     /\ op' = (CASE w[1] = "bytes" -> <<"bytes", k - 1, w[3][2], w[2], fz>>
                [] w[1] = "newo" -> <<"newo", k - 1, w[2], 7, fz>>
                [] OTHER -> <<w[1], k - 1, w[2], IF Overflows(w) THEN -1 ELSE w[3][2], fz>>)
     /\ UNCHANGED <<al, def>>
Free(i, md) ==
  LET o == out[i] blk == CHOOSE x \in m.blocks : x[1] = o.id
      log == (IF o.w[1] = "newo" THEN <<<<2, o.id, o.w[2] - 5>>>> ELSE <<>>) \o <<<<6>> \o blk>>
  IN /\ e' = [op |-> "free", log |-> log, w |-> o.w, b |-> blk] /\ m' = EvFold(m, log, 1).m
     /\ out' = SubSeq(out, 1, i - 1) \o SubSeq(out, i + 1, Len(out)) /\ op' = <<"free", i - 1, md>> /\ UNCHANGED <<al, def>>
Set(k, r, o) == al' = [al EXCEPT ![k] = r] /\ op' = o /\ e' = [op |-> "set", log |-> <<>>] /\ UNCHANGED <<def, out, m>>
Req == {<<"bytes", 0, <<0, 24>>>>, <<"bytes", 32, <<0, 0>>>>, <<"elems", 4, <<0, 2>>>>, <<"elems", 2, <<>>>>, <<"objs", 3, <<0, 1>>>>, <<"objs", 5, <<>>>>}
Next == \/ \E k \in 1..2 : \/ Set(k, def, <<"c_def", k - 1>>) \/ \E r \in 1..2 : Set(k, r, <<"c_res", k - 1, r - 1>>)
                           \/ \E q \in {<<"c_copy", k - 1, 2 - k>>, <<"c_conv", k - 1, 2 - k, 3>>, <<"c_std", k - 1, 2 - k, 0>>, <<"c_std", k - 1, 2 - k, 1>>} : Set(k, al[3 - k], q)
                           \/ Set(k, def, <<"c_sel", k - 1, 2 - k>>)
                           \/ \E w \in Req, fz \in {-1, 0} : Ask(k, w, fz)
                           \/ \E t \in {6, 7}, fz \in {-1, 0, 1} : Ask(k, <<"newo", t, One>>, fz)
        \/ \E r \in 1..2 : def' = r /\ op' = <<"def", 0, r - 1>> /\ e' = [op |-> "def", log |-> <<>>] /\ UNCHANGED <<al, out, m>>
        \/ \E i \in 1..Len(out), md \in 0..2 : Free(i, md)
Spec == Init /\ [][Next]_vars
Inv == /\ {x[1] : x \in m.blocks} = {out[i].id : i \in 1..Len(out)} /\ Cardinality(m.blocks) = Len(out)
       /\ \A i \in 1..Len(out) : \E x \in m.blocks : x = <<out[i].id>> \o NeedN(out[i].w) \o <<NeedA(out[i].w), out[i].r>>
       /\ {s[1] : s \in m.live} = {out[i].id : i \in {i \in 1..Len(out) : out[i].w[1] = "newo"}}
Obeys == [][/\ EvFold(m, e'.log, 1).ok
            /\ e'.op \in {"bytes", "elems", "objs"} => Plain(e', al[e'.k], e'.w)
            /\ e'.op = "newo" => New(e', al[e'.k], e'.w[2])
            /\ e'.op = "free" => IF e'.w[1] = "newo" THEN Delete(e', e'.b) ELSE Returned(e'.log, e'.b)]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
