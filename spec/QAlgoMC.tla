-------------------------------- MODULE QAlgoMC --------------------------------
(* The compacting loop (a write position behind a read position, then the tail cut     *)
(* off) computes Rest, for every short sequence; and every call on every short            *)
(* sequence, for replay on the real code.                                                  *)
EXTENDS QAlgo, TLC, Json
CONSTANTS MaxL, Keys
VARIABLES s, op, loop
vars == <<s, op, loop>>
View == <<[i \in 1..Len(s) |-> s[i][1]], loop>>
Seqs == UNION {[1..n -> Keys] : n \in 0..MaxL}
Tag(k) == [i \in 1..Len(k) |-> <<k[i], i - 1>>]
Idle == [on |-> FALSE]
Init == s = <<>> /\ op = <<"init">> /\ loop = Idle
RECURSIVE Set2Seq(_)
Set2Seq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S : a <= b IN <<x>> \o Set2Seq(S \ {x})
ByValue == {"qfind", "pfind", "erase1", "eraseall"}
ByPred == {"qfindif", "pfindif", "erase1if", "eraseallif", "all", "any", "none"}
Call == /\ ~loop.on
        /\ \/ s = <<>> /\ \E k \in Seqs : s' = Tag(k) /\ op' = <<"set">> \o k
           \/ \E o \in ByValue, v \in Keys : s' = Do(s, o, <<v>>)[2] /\ op' = <<o, v>>
           \/ \E o \in ByPred, S \in SUBSET Keys : s' = Do(s, o, Set2Seq(S))[2] /\ op' = <<o>> \o Set2Seq(S)
           \/ \E o \in {"all0", "any0", "none0"} : s' = s /\ op' = <<o>>
        /\ UNCHANGED loop
Begin == ~loop.on /\ \E S \in SUBSET Keys : loop' = [on |-> TRUE, v |-> Set2Seq(S), a |-> s, r |-> 1, w |-> 1] /\ op' = <<"loop">> /\ UNCHANGED s
Move == /\ loop.on /\ loop.r <= Len(s)
        /\ loop' = (IF Match(loop.a[loop.r], "eraseallif", loop.v) THEN [loop EXCEPT !.r = @ + 1]
                    ELSE [loop EXCEPT !.a[loop.w] = loop.a[loop.r], !.w = @ + 1, !.r = @ + 1])
        /\ UNCHANGED <<s, op>>
Cut == loop.on /\ loop.r > Len(s) /\ loop' = Idle /\ op' = <<"loop">> /\ UNCHANGED s
       /\ Assert(<<loop.r - loop.w, SubSeq(loop.a, 1, loop.w - 1)>> = Do(s, "eraseallif", loop.v), "the loop keeps what it must")
Next == Call \/ Begin \/ Move \/ Cut
Spec == Init /\ [][Next]_vars
Inv == \A o \in {"qfindif", "any", "none", "all"} : \A S \in SUBSET Keys :
         LET v == Set2Seq(S) IN /\ (Do(s, "any", v)[1] = 1) = (Do(s, "qfindif", v)[1] < Len(s))
                                /\ Do(s, "any", v)[1] + Do(s, "none", v)[1] = 1
Emit == op'[1] = "loop" \/ loop.on \/ PrintT("EDGE " \o ToJson(<<View[1], op', View'[1]>>))
=============================================================================
