---------------------------- MODULE PodVectorMC ----------------------------
(* The growth and reallocation algorithm over an allocator with realloc or     *)
(* in-place expansion (which may fail at any time), checked exhaustively for   *)
(* two vectors: contents follow the sequence semantics and the blocks held     *)
(* obey the ledger.  Every transition is printed for replay.                   *)
EXTENDS PodVector, TLC, Json

CONSTANTS MaxLen, MaxCap
VARIABLES ex, v, bl, op, e
vars == <<ex, v, bl, op, e>>
View == <<ex, [k \in 1..2 |-> <<Len(v[k].c), v[k].cap, v[k].blk # 0>>]>>

Init == ex \in BOOLEAN /\ v = [k \in 1..2 |-> [c |-> <<>>, cap |-> 0, blk |-> 0, al |-> k, off |-> 0]]
        /\ bl = {} /\ op = <<"init">> /\ e = [op |-> "nop"]

FreshId == CHOOSE i \in 1..9 : i \notin Ids(bl)
FreshId2 == CHOOSE i \in 1..9 : i \notin Ids(bl) /\ i # FreshId
RECURSIVE Grow15(_, _)
Grow15(cap, need) == IF cap >= need THEN cap ELSE Grow15((cap * 3 + 1) \div 2, need)
NewCap(cap, need) == IF cap = 0 THEN need ELSE Grow15(cap, need)

\* ways to bring vector w to capacity cap keeping its elements: <<log, block>>
Resized(w, cap) ==
  LET f == FreshId IN
  IF w.blk = 0 THEN {<<IF ex THEN <<<<5, f, cap, w.al>>>> ELSE <<<<7, 0, f, cap, w.al>>>>, f>>}
  ELSE IF ex THEN {<<<<<<8, w.blk, cap, 1, w.al>>>>, w.blk>>, <<<<<<8, w.blk, cap, 0, w.al>>, <<5, f, cap, w.al>>, <<6, w.blk, w.al>>>>, f>>}
  ELSE {<<<<<<7, w.blk, w.blk, cap, w.al>>>>, w.blk>>, <<<<<<7, w.blk, f, cap, w.al>>>>, f>>, <<<<<<5, f, cap, w.al>>, <<6, w.blk, w.al>>>>, f>>}
Freed(w) == IF w.blk = 0 THEN <<>> ELSE <<<<6, w.blk, w.al>>>>
NewVals(k) == [i \in 1..k |-> <<10 * (Len(v[1].c) + Len(v[2].c)) + i>>]

DoIt(o, name, args, rec, thr) ==
  LET x == o
      y == 3 - o
      ev == rec @@ [op |-> name]
      eff == CASE name = "as_self" -> [a |-> Fill(ev.n, v[x].c[ev.i + 1])]
               [] name = "emplb0" -> [a |-> Append(v[x].c, <<0>>)]
               [] name \in {"c_n", "res"} -> [a |-> ResizeTo(IF name = "c_n" THEN <<>> ELSE v[x].c, ev.n, <<0>>)]
               [] OTHER -> SeqEff(ev, v[x].c, v[y].c)
      n == Len(eff.a)
      w == v[x]
      keep == [log |-> <<>>, cap |-> w.cap, blk |-> w.blk, al |-> w.al]
      opts ==
        CASE name \in {"c_def", "c_n", "c_fill", "c_range", "c_copy"} ->
               {[log |-> Freed(w) \o (IF n = 0 THEN <<>> ELSE <<<<5, FreshId, n, w.al>>>>), cap |-> n, blk |-> IF n = 0 THEN 0 ELSE FreshId, al |-> w.al]}
          [] name \in {"c_move", "a_move"} -> {[log |-> Freed(w), cap |-> v[y].cap, blk |-> v[y].blk, al |-> v[y].al]}
          [] name = "swap" -> {[log |-> <<>>, cap |-> v[y].cap, blk |-> v[y].blk, al |-> v[y].al]}
          [] name \in {"a_copy", "as_fill", "as_range", "as_self"} ->
               IF n <= w.cap THEN {keep} ELSE {[log |-> Freed(w) \o <<<<5, FreshId, NewCap(w.cap, n), w.al>>>>, cap |-> NewCap(w.cap, n), blk |-> FreshId, al |-> w.al]}
          [] name = "shrink" -> IF n = w.cap THEN {keep} ELSE IF n = 0 THEN {[log |-> Freed(w), cap |-> 0, blk |-> 0, al |-> w.al]}
                                ELSE {[log |-> p[1], cap |-> n, blk |-> p[2], al |-> w.al] : p \in Resized(w, n)}
          [] OTHER -> LET need == IF name = "reserve" THEN ev.n ELSE n IN
                      IF need <= w.cap THEN {keep}
                      ELSE {[log |-> p[1], cap |-> NewCap(w.cap, need), blk |-> p[2], al |-> w.al] : p \in Resized(w, NewCap(w.cap, need))}
      \* the first request of the operation is refused
      need == IF name = "reserve" THEN ev.n ELSE n
      grows == name \in Keeps /\ (IF name = "shrink" THEN n # w.cap /\ n # 0 ELSE need > w.cap)
      none == [log |-> Freed(w) \o <<<<9, w.al>>>>, cap |-> 0, blk |-> 0, al |-> w.al, c |-> <<>>]
      refused ==
        CASE name \in Builds -> IF n = 0 THEN {} ELSE {none}
          [] name \in Replaces -> IF n <= w.cap THEN {} ELSE {none}
          [] grows -> {[log |-> (IF ex /\ w.blk # 0 THEN <<<<8, w.blk, IF name = "shrink" THEN n ELSE NewCap(w.cap, need), 0, w.al>>>> ELSE <<>>) \o <<<<9, w.al>>>>,
                        cap |-> w.cap, blk |-> w.blk, al |-> w.al, c |-> w.c]}
          [] OTHER -> {}
  IN /\ n <= MaxLen
     /\ IF thr THEN \E q \in refused :
          LET f == PodFold(bl, q.log, 1, ex) IN
          /\ Assert(f.ok, <<"ledger", name, q.log>>)
          /\ bl' = f.bl /\ v' = [v EXCEPT ![x] = [c |-> q.c, cap |-> q.cap, blk |-> q.blk, al |-> q.al, off |-> 0]]
          /\ op' = <<"x_" \o name, o>> \o args /\ e' = ev @@ [o |-> o, y |-> y, ex |-> TRUE]
          /\ UNCHANGED ex
        ELSE \E q \in opts :
          LET f == PodFold(bl, q.log, 1, ex)
              src == SourceAfter(ev, v[x].c, v[y].c)
              moves == name \in {"c_move", "a_move"} IN
          /\ q.cap <= MaxCap
          /\ Assert(f.ok, <<"ledger", name, q.log>>)
          /\ bl' = f.bl
          /\ v' = [v EXCEPT ![x] = [c |-> eff.a, cap |-> q.cap, blk |-> q.blk, al |-> q.al, off |-> 0],
                            ![y] = IF moves THEN [c |-> src, cap |-> 0, blk |-> 0, al |-> @.al, off |-> 0]
                                   ELSE IF name = "swap" THEN w ELSE [@ EXCEPT !.c = src]]
          /\ op' = <<name, o>> \o args
          /\ e' = ev @@ [o |-> o, y |-> y, ex |-> FALSE]
          /\ UNCHANGED ex
Do(o, name, args, rec) == \E thr \in BOOLEAN : DoIt(o, name, args, rec, thr)

Next ==
  \E o \in 1..2 : LET s == v[o].c
                      m == Len(s) IN
   \/ \E nm \in {"c_def", "c_copy", "c_move", "a_copy", "a_move", "clear", "shrink", "eq"} : Do(o, nm, <<>>, [x |-> 0])
   \/ \E n \in 0..MaxLen : Do(o, "c_n", <<n>>, [n |-> n])
   \/ \E n \in 0..MaxCap : Do(o, "reserve", <<n>>, [n |-> n])
   \/ Do(o, "push", <<>>, [vs |-> NewVals(1)])
   \/ o = 1 /\
      \/ Do(o, "swap", <<>>, [x |-> 0])
      \/ \E n \in 0..MaxLen : Do(o, "res", <<n>>, [n |-> n])
      \/ \E n \in 0..MaxLen : \E nm \in {"c_fill", "as_fill", "as_range"} : Do(o, nm, <<n>>, [n |-> n, vs |-> NewVals(n)])
      \/ m > 0 /\ Do(o, "pop", <<>>, [x |-> 0])
      \/ Do(o, "emplb", <<>>, [vs |-> NewVals(1)]) \/ Do(o, "emplb0", <<>>, [x |-> 0])
      \/ \E p \in 0..m :
           \/ \E nm \in {"ins", "empl"} : Do(o, nm, <<p>>, [p |-> p, vs |-> NewVals(1)])
           \/ \E n \in 0..3 : \E nm \in {"ins_fill", "ins_range"} : Do(o, nm, <<p, n>>, [p |-> p, n |-> n, vs |-> NewVals(n)])
           \/ \E i \in 0..m-1 : \E nm \in InsSelf : Do(o, nm, <<p, i>>, [p |-> p, i |-> i])
           \/ \E i \in 0..m-1, n \in 0..2 : Do(o, "ins_fill_self", <<p, n, i>>, [p |-> p, n |-> n, i |-> i])
      \/ \E p \in 0..m-1 : Do(o, "er", <<p>>, [p |-> p]) \/ Do(o, "set", <<p>>, [i |-> p, v |-> <<7>>])
      \/ \E p \in 0..m : \E q \in p..m : Do(o, "er_range", <<p, q>>, [p |-> p, q |-> q])
      \/ \E i \in 0..m-1 : \E nm \in AppSelf : Do(o, nm, <<i>>, [i |-> i])
      \/ \E n \in 0..MaxLen : Do(o, "res_v", <<n>>, [n |-> n, v |-> <<5>>]) \/ (\E i \in 0..m-1 : \E nm \in {"res_self", "as_self"} : Do(o, nm, <<n, i>>, [n |-> n, i |-> i]))
Spec == Init /\ [][Next]_vars

Inv == /\ Held(bl, v, <<1, 1>>)
       /\ \A k \in 1..2 : Len(v[k].c) <= v[k].cap
\* what is unspecified may be anything, the rest follows the sequence; nothing is lost on growth
Obeys == [][ LET x == e'.o
                 y == e'.y IN
             /\ IF e'.ex THEN ThrewOK(e', v[x].c, v'[x].c) /\ v'[y] = v[y] ELSE
                ContentsOK(e', v[x].c, v[y].c, v'[x].c, 1, TRUE)
             /\ e'.ex \/ CapOK(e', [cap |-> v[x].cap, n |-> Len(v[x].c)], [cap |-> v'[x].cap, n |-> Len(v'[x].c)]) ]_vars
Emit == IF \/ op'[1] \in {"c_copy", "c_move", "a_copy", "a_move", "swap", "eq", "c_def", "c_n", "reserve", "push"}
           \/ LET y == 3 - op'[2] IN v[y].c = <<>> /\ v[y].cap = 0 /\ v[y].blk = 0
        THEN PrintT("EDGE " \o ToJson(<<View, op', View'>>)) ELSE TRUE
=============================================================================
