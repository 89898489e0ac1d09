----------------------------- MODULE ExpectedMC -----------------------------
(* The union of a value and an error with a flag, as the code handles it: objects  *)
(* are constructed only in empty storage, used and destroyed only as what they are. *)
EXTENDS Expected, TLC, Json
VARIABLES u, c, op, e
vars == <<u, c, op, e>>
\* u[k]: [f |-> flag, o |-> "T", "E" or "" (no object), v]
Kinds == {[ref |-> r, tv |-> t, ev |-> x, bh |-> IF r THEN 0 ELSE 1] : r \in BOOLEAN, t \in BOOLEAN, x \in BOOLEAN}
HasT == ~c.tv /\ ~c.ref
Abs(w) == [k \in 1..2 |-> Rec(w[k].f, w[k].v)]
View == <<[k \in 1..2 |-> <<u[k].f, u[k].v>>], <<c.ref, c.tv, c.ev>>>>
Obj(f) == IF f = 1 THEN (IF HasT THEN "T" ELSE "") ELSE (IF c.ev THEN "" ELSE "E")
Init == /\ c \in {k \in Kinds : ~(k.ref /\ k.tv)}
        /\ u = [k \in 1..2 |-> [f |-> c.bh, o |-> IF c.bh = 1 THEN (IF c.tv \/ c.ref THEN "" ELSE "T") ELSE (IF c.ev THEN "" ELSE "E"), v |-> 0]]
        /\ op = <<"init">> /\ e = [op |-> "init"]
A(b, msg) == Assert(b, msg)
Destroy(r) == IF A(r.o = Obj(r.f), <<"destroyed as something else", r>>) THEN [r EXCEPT !.o = ""] ELSE r
Construct(r, f, v) == IF A(r.o = "", <<"constructed over an object", r>>) THEN [f |-> f, o |-> Obj(f), v |-> V(c, f, v)] ELSE r
Dead(r) == [r EXCEPT !.o = ""]
Moved(r) == [r EXCEPT !.v = MovedFrom(c, Rec(r.f, r.v)).v]
MoveAssign(x, y) == IF x.f = y.f THEN (IF A(x.o = Obj(x.f) /\ y.o = Obj(y.f), <<"assigned", x, y>>) THEN [x EXCEPT !.v = y.v] ELSE x) ELSE Construct(Destroy(x), y.f, y.v)
Ctor(x, f, v, fz) == IF fz = 1 /\ Obj(f) # "" THEN [r |-> Construct(Destroy(x), c.bh, 0), ex |-> "boom"] ELSE [r |-> Construct(Destroy(x), f, v), ex |-> ""]
Run(o, nm, v, md, fz) == \* [x, y, ex]
  LET x == u[o]
      y == u[3 - o]
      ok(r) == [x |-> r, y |-> y, ex |-> ""]
      as(f, w) == IF fz = 1 /\ Obj(f) # "" THEN [x |-> x, y |-> y, ex |-> "boom"] ELSE ok(MoveAssign(x, Construct([f |-> f, o |-> "", v |-> 0], f, w)))
      ct(f, w) == LET q == Ctor(x, f, w, fz) IN [x |-> q.r, y |-> y, ex |-> q.ex]
  IN CASE nm = "c_def" -> ct(1, 0)
       [] nm = "c_unexp" -> ct(0, 0)
       [] nm = "c_val" -> IF c.ref THEN ct(1, v) ELSE ok(Construct(Destroy(x), 1, v))
       [] nm = "c_err" -> IF md > 0 THEN ct(0, v) ELSE ok(Construct(Destroy(x), 0, v))
       [] nm = "a_unexp" -> as(0, 0)
       [] nm = "a_val" -> ok(MoveAssign(x, Construct([f |-> 1, o |-> "", v |-> 0], 1, v)))
       [] nm = "a_err" -> IF md > 0 THEN as(0, v) ELSE ok(MoveAssign(x, Construct([f |-> 0, o |-> "", v |-> 0], 0, v)))
       [] nm = "c_move" -> [x |-> Construct(Destroy(x), y.f, y.v), y |-> Moved(y), ex |-> ""]
       [] nm = "a_move" -> [x |-> MoveAssign(x, y), y |-> Moved(y), ex |-> ""]
       [] nm = "c_copy" -> ct(y.f, y.v)
       [] nm = "a_copy" -> IF fz = 1 /\ HasT /\ y.f = 1 THEN [x |-> x, y |-> y, ex |-> "boom"] ELSE ok(MoveAssign(x, y))
       [] nm = "clear" -> ok(IF x.f = 1 THEN Construct(Destroy(x), 0, 0) ELSE x)
       [] nm = "emplace" -> LET d == IF x.f = 1 THEN Construct(Destroy(x), 0, 0) ELSE x IN
                            IF fz = 1 /\ HasT THEN [x |-> d, y |-> y, ex |-> "boom"] ELSE ok(Construct(Destroy(d), 1, v))
       [] nm = "vor" -> IF md = 5 /\ x.f = 1 THEN ok(Moved(x)) ELSE ok(x)
       [] nm = "take" -> ok(Moved(x))
       [] nm = "set" -> ok([x EXCEPT !.v = v])
       [] OTHER -> ok(x)
Do(o, nm, v, md, fz) ==
  LET q == Run(o, nm, v, md, fz) IN
  /\ u' = [u EXCEPT ![o] = q.x, ![3 - o] = q.y]
  /\ e' = [op |-> nm, o |-> o, v |-> v, md |-> md, fz |-> fz, ex |-> q.ex, src |-> v,
           r |-> IF q.ex # "" THEN -1 ELSE Result(c, [op |-> nm, o |-> o, v |-> v, md |-> md], Abs(u))]
  /\ op' = <<nm, fz, o, v, md>> /\ UNCHANGED c
Next == \E o \in 1..2 : \E fz \in {0, 1} :
  \/ ~c.ref /\ Do(o, "c_def", 0, 0, fz)
  \/ \E nm \in {"c_unexp", "a_unexp"} : Do(o, nm, 0, 0, fz)
  \/ fz = 0 /\ \E nm \in {"c_move", "a_move", "get"} : (nm = "get" => Obj(u[o].f) # "") /\ Do(o, nm, 0, 0, 0)
  \/ ~c.tv /\ fz = 0 /\ \E v \in 0..2, nm \in {"c_val", "a_val"} : Do(o, nm, v, 0, 0)
  \/ ~c.ev /\ \E v \in 0..2, md \in {0, 1}, nm \in {"c_err", "a_err"} : (md = 0 => fz = 0) /\ Do(o, nm, v, md, fz)
  \/ c.ev /\ \E nm \in {"c_copy", "a_copy", "emplace"} : Do(o, nm, 1, 0, fz)
  \/ c.ev /\ fz = 0 /\ Do(o, "clear", 0, 0, 0)
  \/ ~c.tv /\ fz = 0 /\ \E md \in {0, 5} : Do(o, "vor", 2, md, 0)
  \/ fz = 0 /\ Obj(u[o].f) # "" /\ (Do(o, "take", 0, 0, 0) \/ Do(o, "set", 2, 0, 0))
Spec == Init /\ [][Next]_vars
Inv == \A k \in 1..2 : u[k].o = Obj(u[k].f)
Obeys == [][Outcome(c', e', Abs(u), Abs(u'))]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
