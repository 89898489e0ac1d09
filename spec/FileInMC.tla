------------------------------- MODULE FileInMC -------------------------------
(* The buffer as three pointers b <= g <= e into memory with the moves the code     *)
(* makes: it refines reading a range, never leaves it, and every position the       *)
(* model can reach is replayed on the real code.                                    *)
EXTENDS FileIn, TLC, Json, IOUtils
CONSTANTS MaxLen
MaxWrap == IF IOEnv.WRAPS = "2" THEN 2 ELSE 1
VARIABLES f, m, op, e
vars == <<f, m, op, e>>
View == <<Len(f.d), f.p, f.eof, f.fail, f.w>>
MCView == <<f, m>>
Data(n) == [k \in 1..n |-> <<66, 65, 122, 127>>[k]]
\* m: get position relative to eback, and size
Init == f = Fresh(<<>>) /\ m = [g |-> 0, n |-> 0] /\ op = <<"init">> /\ e = [op |-> "init"]
MSeek(t) == IF t < 0 \/ t > m.n THEN m ELSE [m EXCEPT !.g = t]
MTake(n) == IF n > m.n - m.g THEN [m EXCEPT !.g = m.n] ELSE [m EXCEPT !.g = @ + n]
MAfter(nm, x, d) ==
  CASE nm \in {"new", "reset"} -> [g |-> 0, n |-> x]
    [] nm \in {"sbumpc", "snextc"} -> MTake(1)
    [] nm \in {"sgetn"} -> MTake(x)
    [] nm = "get" \/ nm = "xrsh" -> IF Good(f) THEN MTake(1) ELSE m
    [] nm \in {"read", "xread"} -> IF Good(f) THEN MTake(x) ELSE m
    [] nm \in {"sunget"} -> IF m.g > 0 THEN [m EXCEPT !.g = @ - 1] ELSE m
    [] nm = "putback" -> IF m.g > 0 /\ f.d[m.g] = Data(4)[x] THEN [m EXCEPT !.g = @ - 1] ELSE m
    [] nm = "seekpos" -> MSeek(x)
    [] nm = "seekoff" -> MSeek(Base(f, d) + x)
    [] nm = "seekg" -> IF f.fail THEN m ELSE MSeek(x)
    [] nm = "redir" -> IF f.fail \/ f.eof THEN m ELSE MSeek(x)
    [] nm = "seekgd" -> IF f.fail THEN m ELSE MSeek(Base(f, d) + x)
    [] nm = "xend" -> LET b == f.w[Len(f.w)] IN IF b >= 0 THEN MSeek(b) ELSE m
    [] OTHER -> m
Do(nm, x, d) ==
  LET ev == [op |-> nm, a |-> x, d |-> d, ch |-> IF nm = "putback" THEN Data(4)[x] ELSE 0, data |-> IF nm \in {"new", "reset"} THEN Data(x) ELSE <<>>, ex |-> ""]
      pop == [f EXCEPT !.w = SubSeq(@, 1, Len(@) - 1)]
      q == IF nm = "xend"
           THEN Res(LET b == f.w[Len(f.w)] IN IF b = -1 THEN pop
                    ELSE IF b = -2 THEN (IF f.fail THEN pop ELSE [pop EXCEPT !.eof = FALSE, !.fail = TRUE])
                    ELSE IF ~Inside(f, b) THEN (IF f.fail THEN pop ELSE [pop EXCEPT !.eof = FALSE, !.fail = TRUE])
                    ELSE [pop EXCEPT !.p = b, !.eof = (IF f.fail THEN f.eof ELSE FALSE)], -2)
           ELSE Effect(ev, f)
  IN /\ f' = q.g /\ m' = MAfter(nm, x, d)
     /\ e' = ev @@ [r |-> q.r, gc |-> q.gc, got |-> q.got]
     /\ op' = <<nm, IF nm = "putback" THEN x - 1 ELSE x, IF nm \in {"new", "reset"} THEN 0 ELSE d>>
Next ==
  \/ \E nm \in {"sgetc", "sbumpc", "snextc", "sunget", "avail", "get", "peek", "tellg", "sclear"} : Do(nm, 0, 0)
  \/ \E n \in 0..MaxLen : Do("new", n, 0) \/ Do("reset", n, 0) \/ Do("seekpos", n - 1, 0) \/ Do("seekg", n + 1, 0)
  \/ \E n \in {0, 1, 3} : Do("sgetn", n, 0) \/ Do("read", n, 0) \/ (f.w # <<>> /\ Do("xread", n, 0))
  \/ \E n \in 1..2 : Do("putback", n, 0)
  \/ \E x \in -1..1, d \in 1..2 : Do("seekoff", x, d) \/ Do("seekgd", x, d)
  \/ Len(f.w) < MaxWrap /\ (Do("wrap", 0, 0) \/ \E x \in 0..MaxLen : Do("redir", x, 0))
  \/ f.w # <<>> /\ (Do("xrsh", 0, 0) \/ Do("xend", 0, 0))
Spec == Init /\ [][Next]_vars
Inv == /\ m.g = f.p /\ m.n = Len(f.d) /\ f.p \in 0..Len(f.d)
Obeys == [][Outcome(e', f, f')]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
