-------------------------------- MODULE AnyMC --------------------------------
(* The algorithm of any over a heap of blocks, two holders with allocators of    *)
(* two identities, copyable and move-only types, and failures of constructions    *)
(* and allocations: it refines Any, frees every block once through an allocator   *)
(* equal to the one it came from, and holds exactly the outstanding blocks.       *)
EXTENDS Any, FiniteSets, TLC, Json
VARIABLES v, heap, op, e
vars == <<v, heap, op, e>>
Types == {1, 3}
Vals == {0, 1}
\* v[k] = [b |-> block or 0, a |-> allocator]    heap[b] = [a, t, v] or [a |-> 0 ...] if free
Free == [a |-> 0, t |-> 0, v |-> -1]
Blocks == 1..3
View == <<[k \in 1..2 |-> IF v[k].b = 0 THEN <<0, -1, v[k].a>> ELSE <<heap[v[k].b].t, heap[v[k].b].v, v[k].a>>]>>
AbsIn(w, h) == [k \in 1..2 |-> IF w[k].b = 0 THEN Empty ELSE [t |-> h[w[k].b].t, v |-> h[w[k].b].v]]
Init == v = [k \in 1..2 |-> [b |-> 0, a |-> 1]] /\ heap = [b \in Blocks |-> Free] /\ op = <<"init">> /\ e = [op |-> "init"]
New(h) == CHOOSE b \in Blocks : h[b].a = 0 /\ \A c \in Blocks : h[c].a = 0 => b <= c
Rel(h, b, a) == IF b = 0 THEN h ELSE IF Assert(h[b].a = a, <<"freed through another allocator", h, b, a>>) THEN [h EXCEPT ![b] = Free] ELSE h

\* st: [w, h, ex]; each operation in the steps of the code; fz = 1: constructing throws, fz = -1: allocating throws
Reset(st, x) == [st EXCEPT !.h = Rel(st.h, st.w[x].b, st.w[x].a), !.w[x].b = 0]
Make(st, a, t, u, fz) == \* [st, b]
  IF fz = -1 THEN [st |-> [st EXCEPT !.ex = "alloc"], b |-> 0]
  ELSE LET b == New(st.h) IN IF fz = 1 THEN [st |-> [st EXCEPT !.ex = "boom"], b |-> 0]
  ELSE [st |-> [st EXCEPT !.h[b] = [a |-> a, t |-> t, v |-> u]], b |-> b]
CopyFrom(st, x, y, fz) ==
  LET src == st.w[y].b IN
  IF src = 0 THEN Reset(st, x)
  ELSE IF fz = -1 THEN [st EXCEPT !.ex = "alloc"]
  ELSE IF ~Copyable(st.h[src].t) THEN [st EXCEPT !.ex = "badcast"]
  ELSE LET q == Make(st, st.w[x].a, st.h[src].t, st.h[src].v, fz) IN
       IF q.st.ex # "" THEN q.st ELSE LET r == Reset(q.st, x) IN [r EXCEPT !.w[x].b = q.b]
Emplace(st, x, t, u, fz) == LET q == Make(Reset(st, x), st.w[x].a, t, u, fz) IN IF q.st.ex # "" THEN q.st ELSE [q.st EXCEPT !.w[x].b = q.b]
AssignVal(st, x, t, u, fz) == LET q == Make(st, st.w[x].a, t, u, fz) IN IF q.st.ex # "" THEN q.st ELSE LET r == Reset(q.st, x) IN [r EXCEPT !.w[x].b = q.b]
Steal(st, x, y) == [st EXCEPT !.w[x] = st.w[y], !.w[y].b = 0]
Ctor(st, x, a) == LET r == Reset(st, x) IN [r EXCEPT !.w[x].a = a]

Run(o, nm, t, u, md, a, fz) ==
  LET y == 3 - o
      st == [w |-> v, h |-> heap, ex |-> ""]
      cur == IF v[o].b = 0 THEN Empty ELSE [t |-> heap[v[o].b].t, v |-> heap[v[o].b].v]
  IN CASE nm = "c_def" -> Ctor(st, o, 1)
       [] nm = "c_al" -> Ctor(st, o, a)
       [] nm = "c_copy" -> CopyFrom(Ctor(st, o, 1), o, y, fz)
       [] nm = "c_copya" -> CopyFrom(Ctor(st, o, a), o, y, fz)
       [] nm = "c_move" -> Steal(Ctor(st, o, 1), o, y)
       [] nm = "a_move" -> Steal(Reset(st, o), o, y)
       [] nm \in {"a_copy", "cfrom"} -> CopyFrom(st, o, y, fz)
       [] nm \in {"a_self", "cfrom_self"} -> CopyFrom(st, o, o, fz)
       [] nm = "swap" -> [st EXCEPT !.w = [k \in 1..2 |-> v[3 - k]]]
       [] nm = "reset" -> Reset(st, o)
       [] nm = "c_val" -> Emplace(Ctor(st, o, 1), o, t, u, fz)
       [] nm = "c_vala" -> Emplace(Ctor(st, o, a), o, t, u, fz)
       [] nm = "a_val" -> AssignVal(st, o, t, u, fz)
       [] nm = "empl" -> Emplace(st, o, t, u, fz)
       [] nm = "a_own" -> IF cur.t # t THEN st ELSE AssignVal(st, o, t, cur.v, fz)
       [] nm = "cast" -> IF cur.t # t THEN [st EXCEPT !.ex = "badcast"] ELSE IF md = 5 THEN [st EXCEPT !.h[v[o].b].v = -7] ELSE st
       [] nm = "set" -> IF cur.t # t THEN [st EXCEPT !.ex = "badcast"] ELSE [st EXCEPT !.h[v[o].b].v = u]
       [] OTHER -> st
Arg2(o) == IF o = 1 THEN 0 ELSE 1       \* how the driver picks the other of two holders
Do(o, nm, t, u, md, a, fz) ==
  LET r0 == Run(o, nm, t, u, md, a, fz)
      r == IF r0.ex # "" /\ nm \in CtorOps THEN [r0 EXCEPT !.w[o].b = 0, !.w[o].a = 1] ELSE r0
      before == AbsIn(v, heap)
  IN /\ v' = r.w /\ heap' = r.h
     /\ e' = [op |-> nm, o |-> o, p |-> 3 - o, t |-> t, v |-> u, md |-> md, fz |-> fz, ex |-> r.ex, src |-> u,
              r |-> IF r.ex # "" THEN -1 ELSE Result([op |-> nm, o |-> o], before)]
     /\ op' = <<nm, fz, o, Arg2(o), t - 1, u, md, a - 1>>
Fz == {-1, 0, 1}
Next == \E o \in 1..2 :
  \/ \E nm \in {"c_def", "c_move", "a_move", "reset", "swap", "null"} : Do(o, nm, 1, 0, 0, 1, 0)
  \/ \E a \in 1..2 : Do(o, "c_al", 1, 0, 0, a, 0) \/ \E fz \in Fz : Do(o, "c_copya", 1, 0, 0, a, fz) \/ \E t \in Types, u \in Vals : Do(o, "c_vala", t, u, 0, a, 0)
  \/ \E nm \in {"c_copy", "a_copy", "cfrom", "a_self", "cfrom_self"}, fz \in Fz : Do(o, nm, 1, 0, 0, 1, fz)
  \/ \E t \in Types, u \in Vals :
       \/ \E nm \in {"c_val", "a_val", "empl"} : Do(o, nm, t, u, 0, 1, 0) \/ Do(o, nm, t, u, 0, 1, -1)
       \/ \E md \in {1, 2} : t = 1 /\ \E fz \in {0, 1} : Do(o, "c_val", t, u, md, 1, fz) \/ Do(o, "a_val", t, u, md, 1, fz)
       \/ Do(o, "set", t, u, 0, 1, 0)
  \/ \E t \in Types : \E md \in {0, 1, 5} : Do(o, "cast", t, 0, md, 1, 0)
  \/ \E md \in {0, 1} : v[o].b # 0 /\ heap[v[o].b].t = 1 /\ Do(o, "a_own", 1, 0, md, 1, 0)
Spec == Init /\ [][Next]_vars
Small == \A k \in 1..2 : v[k].b # 0 => heap[v[k].b].v >= -7
Inv == /\ \A b \in Blocks : (heap[b].a # 0) = (\E k \in 1..2 : v[k].b = b)        \* held blocks, no others
       /\ v[1].b # 0 => v[1].b # v[2].b
       /\ \A k \in 1..2 : v[k].b # 0 => heap[v[k].b].a = v[k].a
Obeys == [][Outcome(e', AbsIn(v, heap), AbsIn(v', heap'))]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
