--------------------------- MODULE SmallVectorMC ---------------------------
(* The buffer-choosing algorithm, checked exhaustively for small constants     *)
(* against the storage rules and the sequence semantics, for two vectors.      *)
(* Every transition is printed: the conformance driver replays a set of walks  *)
(* covering all of them on the real containers.                                *)
EXTENDS SmallVector, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxLen, MaxCap, Configs   \* Configs: set of 10*sc + rb

VARIABLES cf, v, op, e
vars == <<cf, v, op, e>>
c == [sc |-> cf \div 10, rb |-> cf % 10]
View == <<cf, [k \in 1..2 |-> <<Len(v[k].c), v[k].st, v[k].cap>>]>>

Empty == [c |-> <<>>, st |-> TRUE, cap |-> c.sc]
Init == /\ cf \in Configs
        /\ v = [k \in 1..2 |-> [c |-> <<>>, st |-> TRUE, cap |-> cf \div 10]]
        /\ op = <<"init">> /\ e = [op |-> "nop"]

RECURSIVE Grow15(_, _)
Grow15(cap, need) == IF cap >= need THEN cap ELSE Grow15((cap * 3 + 1) \div 2, need)
\* the buffer the algorithm picks for `need` elements, coming from storage s
Choose(s, need) ==
  IF ~s.st THEN IF need > s.cap THEN [st |-> FALSE, cap |-> Grow15(s.cap, need)]
                ELSE IF need < c.rb THEN [st |-> TRUE, cap |-> c.sc]
                ELSE [st |-> FALSE, cap |-> s.cap]
  ELSE IF need > c.sc THEN [st |-> FALSE, cap |-> need] ELSE [st |-> TRUE, cap |-> c.sc]
Keep(s) == [st |-> s.st, cap |-> s.cap]
ChooseGrow(s, need) == IF need <= s.cap THEN Keep(s) ELSE Choose(s, need)

NewVals(k) == [i \in 1..k |-> 10 * (Len(v[1].c) + Len(v[2].c)) + i]

Do(o, name, args, rec) == \* rec: extra fields of the event record
  LET x == o
      y == 3 - o
      ev == rec @@ [op |-> name]
      eff == SeqEff(ev, v[x].c, v[y].c)
      n == Len(eff.a)
      pre == v[x]
      stor == CASE name \in {"c_def", "c_n", "c_fill", "c_range", "c_il", "c_copy", "c_copya"} -> Choose([st |-> TRUE, cap |-> c.sc], n)
                [] name \in {"c_move", "a_move"} -> IF v[y].st THEN [st |-> TRUE, cap |-> c.sc] ELSE Keep(v[y])
                [] name \in {"a_copy"} \cup AssignOps -> Choose(pre, n)
                [] name \in {"er", "er_range", "pop"} -> IF n = Len(pre.c) THEN Keep(pre) ELSE IF n = 0 /\ c.rb = 0 THEN Keep(pre) ELSE Choose(pre, n)
                [] name = "clear" -> IF c.rb > 0 THEN [st |-> TRUE, cap |-> c.sc] ELSE Keep(pre)
                [] name = "reserve" -> ChooseGrow(pre, ev.n)
                [] name = "shrink" -> IF pre.st THEN Keep(pre) ELSE IF n <= c.sc THEN [st |-> TRUE, cap |-> c.sc] ELSE [st |-> FALSE, cap |-> n]
                [] name = "revert" -> IF n <= c.sc THEN [st |-> TRUE, cap |-> c.sc] ELSE Keep(pre)
                [] name = "swap" -> IF v[y].st THEN [st |-> TRUE, cap |-> c.sc] ELSE Keep(v[y])
                [] name \in {"set", "eq", "obs", "a_self"} -> Keep(pre)
                [] OTHER -> ChooseGrow(pre, n)
      ostor == IF name \in {"c_move", "a_move"} THEN [st |-> TRUE, cap |-> c.sc]
               ELSE IF name = "swap" THEN IF pre.st THEN [st |-> TRUE, cap |-> c.sc] ELSE Keep(pre) ELSE Keep(v[y])
      r == CASE name = "shrink" -> B2I(~pre.st /\ (n <= c.sc \/ n # pre.cap))
             [] name = "revert" -> B2I(stor.st)
             [] OTHER -> eff.r
  IN /\ n <= MaxLen /\ stor.cap <= MaxCap
     /\ v' = [v EXCEPT ![x] = [c |-> eff.a, st |-> stor.st, cap |-> stor.cap],
                       ![y] = [c |-> eff.b, st |-> ostor.st, cap |-> ostor.cap]]
     /\ op' = <<name, o>> \o args
     /\ e' = ev @@ [o |-> o, r |-> r]
     /\ UNCHANGED cf

Next ==
  \E o \in 1..2 : LET s == v[o].c
                      m == Len(s) IN
   \/ \E nm \in {"c_def", "c_copy", "c_move", "a_copy", "a_move", "clear", "shrink", "revert", "eq", "obs"} : Do(o, nm, <<>>, [x |-> 0])
   \/ o = 1 /\ Do(o, "swap", <<>>, [x |-> 0])
   \/ \E n \in 0..MaxLen : Do(o, "c_n", <<n>>, [n |-> n]) \/ (o = 1 /\ Do(o, "res", <<n>>, [n |-> n]))
   \/ \E n \in 0..MaxLen : \E nm \in {"c_fill", "as_fill", "as_range", "as_il"} : o = 1 /\ Do(o, nm, <<n>>, [n |-> n, vs |-> NewVals(n)])
   \/ \E n \in 0..MaxCap : Do(o, "reserve", <<n>>, [n |-> n])
   \/ m > 0 /\ Do(o, "pop", <<>>, [x |-> 0])
   \/ \E nm \in AppendOps : Do(o, nm, <<>>, [vs |-> NewVals(1)])
   \/ o = 1 /\
      \/ \E p \in 0..m :
           \/ \E nm \in {"ins", "insm", "empl"} : Do(o, nm, <<p>>, [p |-> p, vs |-> NewVals(1)])
           \/ \E n \in 0..3 : \E nm \in {"ins_fill", "ins_range", "ins_il"} : Do(o, nm, <<p, n>>, [p |-> p, n |-> n, vs |-> NewVals(n)])
           \/ \E i \in 0..m-1 : \E nm \in InsSelf : Do(o, nm, <<p, i>>, [p |-> p, i |-> i])
           \/ \E i \in 0..m-1, n \in 0..2 : Do(o, "ins_fill_self", <<p, n, i>>, [p |-> p, n |-> n, i |-> i])
      \/ \E p \in 0..m-1 : Do(o, "er", <<p>>, [p |-> p]) \/ Do(o, "set", <<p>>, [i |-> p, v |-> 7])
      \/ \E p \in 0..m : \E q \in p..m : Do(o, "er_range", <<p, q>>, [p |-> p, q |-> q])
      \/ \E i \in 0..m-1 : \E nm \in AppSelf : Do(o, nm, <<i>>, [i |-> i])
      \/ \E n \in 0..MaxLen : Do(o, "res_v", <<n>>, [n |-> n, v |-> 5]) \/ (\E i \in 0..m-1 : Do(o, "res_self", <<n, i>>, [n |-> n, i |-> i]))
Spec == Init /\ [][Next]_vars

S(k) == [st |-> v[k].st, cap |-> v[k].cap, n |-> Len(v[k].c)]
Inv == \A k \in 1..2 : StorageInv(c, S(k))
\* the algorithm obeys the storage rules, whichever buffer identity one assigns
StepObeys ==
  LET o == e'.o
      y == 3 - o
      pre == S(o)
      post == [st |-> v'[o].st, cap |-> v'[o].cap, n |-> Len(v'[o].c)]
      opre == S(y)
      opost == [st |-> v'[y].st, cap |-> v'[y].cap, n |-> Len(v'[y].c)]
  IN \E same, took \in BOOLEAN :
       /\ same => (pre.st = post.st /\ pre.cap = post.cap)
       /\ took => ~opre.st /\ ~post.st
       /\ StorageRule(c, e', pre, post, opre, opost, pre.n, post.n, same, took, e'.r)
       /\ OtherKept(e') => v'[y] = v[y]
Obeys == [][StepObeys]_vars
\* insertion and erasure keep the order of the elements they do not touch
OrderKept == [][ LET o == e'.o IN
                 /\ e'.op \in InsertOps \cup AppendOps \cup AppSelf \cup InsSelf \cup {"ins_fill_self", "reserve", "shrink", "revert"}
                      => IsSubseq(v[o].c, v'[o].c)
                 /\ e'.op \in {"er", "er_range", "pop", "shrink", "revert", "reserve"} => IsSubseq(v'[o].c, v[o].c) ]_vars
\* print the transitions to replay: operations on one vector alone only next to an untouched other one
Emit == IF \/ op'[1] \in {"c_copy", "c_move", "a_copy", "a_move", "swap", "eq", "c_def", "c_n", "reserve", "push"}
           \/ LET y == 3 - op'[2] IN v[y] = Empty
        THEN PrintT("EDGE " \o ToJson(<<View, op', View'>>)) ELSE TRUE
=============================================================================
