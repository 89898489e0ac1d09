------------------------------ MODULE GeneratorMC ------------------------------
EXTENDS Generator, TLC, Json
VARIABLES x, op, log
vars == <<x, op, log>>
S == {0, 1}
Progs == {<<>>, <<14>>, <<1, 15, 1, 16>>, <<2>>, <<1, 17, 2>>, <<3, 1>>}
V(g) == IF x.G[g] = <<>> THEN <<>> ELSE LET b == x.G[g][1] IN <<b.p, b.pos, b.st, b.cur, b.it>>
View == <<V(0), V(1)>>
Init == x = Fresh /\ op = <<"init">> /\ log = <<>>
Act(o, g, h, p) == /\ Legal(x, o, g, h)
                   /\ LET r == Do(x, o, g, h, p) IN x' = [r.x EXCEPT !.n = 0] /\ log' = r.log
                   /\ op' = <<o, g, h>> \o p
Next == \E g \in S :
  \/ \E p \in Progs : Act("new", g, 0, p)
  \/ \E o \in {"next", "begin", "inc", "deref", "take", "reset", "drop", "done", "loop"} : Act(o, g, 0, <<>>)
  \/ \E k \in {-1, 1, 2} : Act("for", g, k, <<>>)
  \/ \E h \in S : \E o \in {"move", "assign", "swap"} : Act(o, g, h, <<>>)
Spec == Init /\ [][Next]_vars
Made(s) == {s[i][3] : i \in {j \in 1..Len(s) : s[j][1] = 2}}
Inv == \A g \in S : x.G[g] # <<>> =>
  LET b == x.G[g][1] IN
  /\ b.loc = (IF b.st = "susp" THEN SelectSeq([i \in 1..b.pos |-> i], LAMBDA i : b.p[i] = 1) ELSE <<>>) \* the locals alive are those made
  /\ (b.st = "susp" => b.p[b.pos] >= 10)
  /\ (b.st = "done" <=> b.pos > Len(b.p) \/ (b.pos > 0 /\ b.p[b.pos] = 2))
(* a body moves forward only, and only by what asks for a value *)
Obeys == [][\A g \in S : x.G[g] # <<>> /\ x'.G[g] # <<>> /\ op'[1] \notin {"swap", "assign", "move"} =>
              /\ x'.G[g][1].pos >= x.G[g][1].pos
              /\ (op'[1] \notin {"next", "begin", "inc", "for", "loop"} \/ op'[2] # g => x'.G[g][1].pos = x.G[g][1].pos)]_vars
Once == \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
