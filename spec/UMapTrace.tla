------------------------------ MODULE UMapTrace ------------------------------
(* Accepts a recorded history of two maps exactly when UMap allows it.  Entries    *)
(* are recorded as <<key, value, node>>, node telling where the entry lives.        *)
EXTENDS UMap, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == <<tid, l, s>>
c == Traces[tid].cfg
ev == Traces[tid].ev
ToSet(q) == {q[i] : i \in 1..Len(q)}
M(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
Nodes(q) == {<<q[i][1], q[i][3]>> : i \in 1..Len(q)}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = <<<<>>, <<>>>>
\* what stays, stays where it is
Stays(p, q) == \A e \in ToSet(p) : \A f \in ToSet(q) : e[1] = f[1] => e[3] = f[3]
Good(q) == /\ Unique(c.eq, M(q)) /\ Cardinality(M(q)) = Len(q) /\ \A e \in M(q) : e[2] >= 0
First(vs, i) == \A j \in 1..(i - 1) : Cls(c.eq, vs[j][1]) # Cls(c.eq, vs[i][1])
Built(vs) == {<<vs[i][1], vs[i][2]>> : i \in {i \in 1..Len(vs) : First(vs, i)}}
Copies == {"c_copy", "a_copy"}
Moves == {"c_move", "a_move"}
Step(E) ==
  LET x == E.o
      y == 3 - E.o
      A == E.s[x]
      B == E.s[y] IN
  /\ E.op # "Crash"
  /\ Good(A) /\ Good(B) /\ E.n = Len(A)
  /\ CASE E.op = "c_il" -> M(A) = Built(E.vs) /\ B = s[y] /\ E.ex = ""
       [] E.op \in Copies -> M(A) = M(s[y]) /\ B = s[y] /\ E.ex = ""
       [] E.op \in Moves -> ToSet(A) = ToSet(s[y]) /\ E.ex = ""
       [] E.op = "swap" -> ToSet(A) = ToSet(s[y]) /\ ToSet(B) = ToSet(s[x]) /\ E.ex = ""
       [] E.op = "eq" -> A = s[x] /\ B = s[y] /\ E.in = (IF M(A) = M(B) THEN 1 ELSE 0) /\ E.ex = ""
       [] OTHER -> LET r == Effect(E, c.eq, M(s[x])) IN
            /\ M(A) = r.m /\ ToSet(B) = ToSet(s[y]) /\ Stays(s[x], A) /\ E.ex = r.x
            /\ E.ex = "" => /\ E.in = r.in
                            /\ <<E.e[1], E.e[2]>> = r.e
                            \* the entry the result denotes is the one in the map
                            /\ r.e # None => E.e \in ToSet(A)
                            \* by another type, no key is made unless it is inserted; what is not inserted is not taken
                            /\ (c.nk /\ E.kk \in (2..5) \cup {7} /\ E.op \in {"te", "teh", "te0", "teh0", "idx", "idxset", "at", "cat", "atset", "find"}) =>
                                 ((E.nk = 0) <=> (Hits(c.eq, M(s[x]), E.kk, E.k) # {} \/ E.op \in {"at", "cat", "atset", "find"}))
                            /\ E.op \in {"te", "teh"} => E.left = (IF Hits(c.eq, M(s[x]), E.kk, E.k) # {} THEN E.v ELSE -1)
                            \* a temporary is taken exactly when it becomes a key
                            /\ E.op \in {"te", "teh", "te0", "teh0", "idx", "idxset", "at", "cat", "atset", "find"} =>
                                 (E.kleft <=> ~(E.kk \in {1, 7} /\ Hits(c.eq, M(s[x]), E.kk, E.k) = {} /\ E.op \in {"te", "teh", "te0", "teh0", "idx", "idxset"}))
            /\ E.op = "obs" => (ToSet(E.fw) = M(s[x]) /\ Len(E.fw) = Len(A))
  /\ s' = E.s
\* the calls there are: by a key always, by another type exactly if the map is transparent, by nothing a key cannot be made of
Offered == LET t == IF c.tr THEN "11111" ELSE "00000" IN
  /\ c.byView = t /\ c.byConstView = t /\ c.byKey = "11111" /\ c.byConst = "11111" /\ ~c.putNone /\ (~c.tr => c.byNone = "00000") /\ c.byIt = "0" /\ c.byCit = "0"
  /\ c.still = "1:5+1:5-2:7+3:9-7" /\ c.hinted = "5:6;5:6;8:9;4:0;3:2;8:9;4"
Next == \/ l <= Len(ev) /\ (l = 1 => TRUE = Offered) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
