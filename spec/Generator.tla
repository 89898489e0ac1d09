------------------------------- MODULE Generator -------------------------------
(* Generators as values: a slot is empty or holds a body. The body's program is a    *)
(* sequence of instructions: 1 make a local, 2 throw, 3 yield all of a generator        *)
(* inside, 10+v yield v. It runs only when a value is wanted, up to the next yield,      *)
(* throw or its end, and writes what it does to a log.                                    *)
EXTENDS Integers, Sequences, FiniteSets
Slots == 0..3
Expand(p) == \* the generator inside yields 1, 2, 3
  LET F[i \in 0..Len(p)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o (IF p[i] = 3 THEN <<11, 12, 13>> ELSE <<p[i]>>) IN F[Len(p)]
Body(id, p) == [id |-> id, p |-> Expand(p), pos |-> 0, st |-> "fresh", loc |-> <<>>, cur |-> "none", it |-> FALSE]
Fresh == [G |-> [g \in Slots |-> <<>>], n |-> 0]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Unwind(b) == [i \in 1..Len(b.loc) |-> <<3, b.id, Rev(b.loc)[i]>>] \o <<<<8, b.id, 0>>>>
RECURSIVE Go(_, _)
Go(b, log) == \* from after instruction pos
  LET i == b.pos + 1 IN
  IF i > Len(b.p) THEN [b |-> [b EXCEPT !.st = "done", !.loc = <<>>, !.pos = i, !.cur = "none"], log |-> log \o <<<<6, b.id, 0>>>> \o Unwind(b), out |-> <<"end", 0>>]
  ELSE CASE b.p[i] = 1 -> Go([b EXCEPT !.pos = i, !.loc = Append(@, i)], Append(log, <<2, b.id, i>>))
         [] b.p[i] = 2 -> [b |-> [b EXCEPT !.st = "done", !.loc = <<>>, !.pos = i, !.cur = "none"], log |-> Append(log, <<7, b.id, i>>) \o Unwind(b), out |-> <<"throw", i>>]
         [] OTHER -> [b |-> [b EXCEPT !.st = "susp", !.pos = i, !.cur = "here"], log |-> Append(log, <<4, b.id, i>>), out |-> <<"value", b.p[i] - 10>>]
Run(b) == IF b.st = "done" THEN [b |-> b, log |-> <<>>, out |-> <<"end", 0>>]
          ELSE Go(b, IF b.st = "fresh" THEN <<<<1, b.id, 0>>>> ELSE <<>>)
Value(b) == b.p[b.pos] - 10
(* the end of a generator at any point: its locals, then its parameter, once *)
Kill(b) == (IF b.st = "susp" THEN Unwind(b) ELSE <<>>) \o <<<<5, b.id, 0>>>>
KillSlot(x, g) == IF x.G[g] = <<>> THEN <<>> ELSE Kill(x.G[g][1])
RECURSIVE Loop(_, _, _, _)
Loop(b, k, log, got) == \* ranged iteration, left after k values (k < 0: never)
  LET r == Run(b) IN
  IF r.out[1] # "value" THEN [b |-> r.b, log |-> log \o r.log, got |-> got, out |-> r.out]
  ELSE IF Len(got) + 1 = k THEN [b |-> r.b, log |-> log \o r.log, got |-> Append(got, r.out[2]), out |-> <<"left", 0>>]
  ELSE Loop(r.b, k, log \o r.log, Append(got, r.out[2]))
St(x) == [g \in 1..4 |-> IF x.G[g - 1] = <<>> THEN 0 ELSE IF x.G[g - 1][1].st = "done" THEN 2 ELSE 1]
(* every operation: whether it may be used, the state after it, its log and its result *)
Legal(x, o, g, h) ==
  CASE o = "new" -> x.G[g] = <<>>
    [] o \in {"next", "begin", "for", "done", "loop"} -> x.G[g] # <<>>
    [] o = "inc" -> x.G[g] # <<>> /\ x.G[g][1].it /\ x.G[g][1].st # "done"
    [] o = "deref" -> x.G[g] # <<>> /\ x.G[g][1].it /\ x.G[g][1].st = "susp" /\ x.G[g][1].cur = "here"
    [] o = "take" -> x.G[g] # <<>> /\ x.G[g][1].it /\ x.G[g][1].st = "susp" /\ x.G[g][1].cur = "here"
    [] o = "move" -> x.G[h] = <<>> /\ g # h
    [] OTHER -> TRUE
Put(x, g, b) == [x EXCEPT !.G[g] = <<b>>]
R(x, log, out, got) == [x |-> x, log |-> log, out |-> out, got |-> got]
Do(x, o, g, h, prog) ==
  LET b == x.G[g][1] IN
  CASE o = "new" -> R([x EXCEPT !.n = @ + 1, !.G[g] = <<Body(x.n + 1, prog)>>], <<>>, <<"ok", 0>>, <<>>)
    [] o = "next" -> LET r == Run(b) IN R(Put(x, g, [r.b EXCEPT !.cur = "none"]), r.log, r.out, <<>>)
    [] o = "begin" -> LET r == Run(b) IN R(Put(x, g, [r.b EXCEPT !.it = (r.out[1] # "throw")]), r.log, r.out, <<>>)
    [] o = "inc" -> LET r == Run(b) IN R(Put(x, g, r.b), r.log, r.out, <<>>)
    [] o = "deref" -> R(x, <<>>, <<"value", Value(b)>>, <<>>)
    [] o = "take" -> R(Put(x, g, [b EXCEPT !.cur = "none"]), <<>>, <<"value", Value(b)>>, <<>>)
    [] o = "for" -> LET r == Loop(b, h, <<>>, <<>>) IN R(Put(x, g, [r.b EXCEPT !.it = FALSE]), r.log, r.out, r.got)
    [] o = "loop" -> LET r == Loop(b, -1, <<>>, <<>>) IN R(Put(x, g, [r.b EXCEPT !.it = FALSE]), r.log, r.out, r.got) \* next until it is empty
    [] o = "move" -> R([x EXCEPT !.G[h] = x.G[g], !.G[g] = <<>>], <<>>, <<"ok", 0>>, <<>>)
    [] o = "assign" -> IF g = h THEN R(x, <<>>, <<"ok", 0>>, <<>>) ELSE R([x EXCEPT !.G[h] = x.G[g], !.G[g] = <<>>], KillSlot(x, h), <<"ok", 0>>, <<>>)
    [] o = "swap" -> R([x EXCEPT !.G[g] = x.G[h], !.G[h] = x.G[g]], <<>>, <<"ok", 0>>, <<>>)
    [] o \in {"reset", "drop"} -> R([x EXCEPT !.G[g] = <<>>], KillSlot(x, g), <<"ok", 0>>, <<>>)
    [] o = "done" -> R(x, <<>>, <<"ok", 0>>, <<>>)
=============================================================================
