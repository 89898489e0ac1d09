-------------------------------- MODULE PmrTrace --------------------------------
(* Recorded histories of allocators and containers: every request at the right     *)
(* resource with the right bytes and alignment, and back.                           *)
EXTENDS PmrAlloc, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, al, def, m, asked, h
vars == <<tid, l, al, def, m, asked, h>>
ev == Traces[tid].ev
None == [r |-> 0, n |-> 0]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ al = <<1, 1, 1>> /\ def = 1 /\ m = MemInit /\ asked = {} /\ h = <<None, None, None>>
Group(r) == IF r = 4 THEN 3 ELSE r          \* resources which are equal may return what each other allocated
\* containers: the ledger up to equality of resources
GEv(v) == IF v[1] \in {5, 6, 8} THEN [v EXCEPT ![6] = Group(v[6])] ELSE v
GLog(log) == [k \in 1..Len(log) |-> GEv(log[k])]
GBlocks(bs) == {[x EXCEPT ![5] = Group(x[5])] : x \in bs}
Setters == {"c_def", "c_res", "c_copy", "c_conv", "c_std", "c_sel"}
Plains == {"bytes", "elems", "objs"}
NewAl(E) == CASE E.op \in {"c_def", "c_sel"} -> [al EXCEPT ![E.k] = def]
              [] E.op = "c_res" -> [al EXCEPT ![E.k] = E.r]
              [] E.op \in {"c_copy", "c_conv", "c_std"} -> [al EXCEPT ![E.k] = al[E.j]]
              [] OTHER -> al
Direct(E) == E.op \in Plains \cup {"newo"}
Holds(E) == "did" \in DOMAIN E \/ E.op = "h_new"
\* the resource which a container must use after the operation
HRes(E) == CASE E.op = "h_new" -> al[E.j] [] E.op = "h_copy" -> def [] E.op \in {"h_copya", "h_movea"} -> al[E.q]
             [] E.op = "h_move" -> h[E.j].r [] E.op = "h_del" -> 0 [] OTHER -> h[E.k].r
HOK(E) ==
  IF E.op # "h_new" /\ ~E.did THEN E.log = <<>> /\ \A c \in 1..3 : E.hr[c] = h[c].r /\ E.hn[c] = h[c].n
  ELSE LET r == HRes(E)
           two == E.op \in {"h_move", "h_movea", "h_massign", "h_swap"}
       IN /\ E.hr[E.k] = r
          /\ \A c \in 1..3 : c # E.k => E.hr[c] = h[c].r
          /\ \A c \in 1..3 : c # E.k /\ ~(two /\ c = E.j) => E.hn[c] = h[c].n
          /\ E.op \in {"h_copy", "h_copya", "h_move", "h_movea", "h_assign", "h_massign", "h_swap"} => E.hn[E.k] = h[E.j].n
          /\ E.op \in {"h_new", "h_del", "h_clear"} => E.hn[E.k] = 0
          /\ \A i \in 1..Len(E.log) : E.log[i][1] \in {5, 8} => Group(E.log[i][6]) \in {Group(r)} \cup (IF two THEN {Group(h[E.j].r)} ELSE {})
          /\ \A c \in 1..3 : E.hi[c] # 0 => Group(E.hi[c]) = Group(E.hr[c])      \* elements which use allocators use the container's
Step(E) ==
  LET f == IF Holds(E) \/ E.op = "end" THEN EvFold([m EXCEPT !.blocks = GBlocks(@)], GLog(E.log), 1) ELSE EvFold(m, E.log, 1)
      mine == {x \in m.blocks : x[1] \in {a[1] : a \in asked}}
  IN /\ f.ok
     /\ IF E.op = "end" THEN f.m = MemInit /\ UNCHANGED <<al, def, asked, h>>
        ELSE /\ def' = (IF E.op = "def" THEN E.r ELSE def) /\ al' = NewAl(E)
             /\ TRUE = (E.def = def' /\ E.rs = al')
             /\ h' = [c \in 1..3 |-> [r |-> E.hr[c], n |-> E.hn[c]]]
             /\ TRUE = (Holds(E) => HOK(E)) /\ TRUE = (~Holds(E) => h' = h)
             /\ TRUE = (E.op \in Setters \cup {"def", "eq"} => E.log = <<>>)
             /\ TRUE = (E.op = "eq" => E.same /\ E.e = (IF Group(al[E.k]) = Group(al[E.j]) THEN 1 ELSE 0))
             /\ TRUE = (E.op \in Plains => Plain(E, al[E.k], <<E.op, E.t, E.c>>))
             /\ TRUE = (E.op = "newo" => New(E, al[E.k], E.t))
             /\ TRUE = (Direct(E) => E.id = (IF E.ex = "" THEN E.log[1][2] ELSE 0))
             /\ TRUE = (E.op = "newv" => /\ E.got = 507 /\ E.in = al[E.k] /\ E.res = al[E.k] /\ f.m = m
                                         /\ \A i \in 1..Len(E.log) : E.log[i][1] = 5 => E.log[i][6] = al[E.k])
             /\ TRUE = (E.op = "free" => IF E.id = 0 THEN E.log = <<>> /\ asked = {}
                                         ELSE \E a \in asked, x \in m.blocks : a[1] = E.id /\ x[1] = E.id /\ IF a[2] = "newo" THEN Delete(E, x) ELSE Returned(E.log, x))
             /\ asked' = (IF Direct(E) /\ E.ex = "" THEN asked \cup {<<E.id, E.op>>} ELSE IF E.op = "free" THEN {a \in asked : a[1] # E.id} ELSE asked)
     \* blocks allocated directly keep their resource; those of containers are known up to equality
     /\ m' = [f.m EXCEPT !.blocks = {x \in @ : x[1] \notin {a[1] : a \in asked}} \cup {x \in mine : x[1] \in {y[1] : y \in f.m.blocks}}]
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
