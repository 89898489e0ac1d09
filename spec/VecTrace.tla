------------------------------ MODULE VecTrace ------------------------------
(* Accepts a recorded history of a small_vector or static_vector exactly when  *)
(* it is one the specification allows.  FOCUS selects the obligations:         *)
(*   SEQ contents and results   STORE storage rules   MEM lifetimes and memory *)
(*   EXC behaviour when something throws                                       *)
EXTENDS SmallVector, SlotLedger, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
FSEQ == IOEnv.FOCUS \in {"SEQ", "EXC"}
FSTORE == IOEnv.FOCUS = "STORE"
FMEM == IOEnv.FOCUS \in {"MEM", "EXC"}

VARIABLES tid, l, s, m
vars == <<tid, l, s, m>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Small == c.kind = "small"

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ s = [k \in 1..2 |-> [c |-> <<>>, n |-> 0, cap |-> Traces[tid].cfg.sc, st |-> TRUE,
                                buf |-> Traces[tid].cfg.ib[k], off |-> 0, al |-> 1]]
        /\ m = MemInit

Unchanged(E, x, y) == /\ E.s[x].c = (IF E.op \in CtorOps THEN <<>> ELSE s[x].c) /\ E.s[y].c = s[y].c

(* ---- contents and results ------------------------------------------------ *)
Normal(E, x, y) ==
  LET eff == SeqEff(E, s[x].c, s[y].c) IN
  /\ E.ex = ""
  /\ ~(~Small /\ Len(eff.a) > c.sc) \* what does not fit must be refused
  /\ E.op \notin {"bad_ins", "bad_er", "ins_huge", "pop_empty"}
  /\ E.op # "a_selfm" => E.s[x].c = eff.a
  /\ E.s[y].c = eff.b
  /\ CASE E.op \in {"shrink", "revert"} -> TRUE
       [] E.op = "max" -> E.r = 1
       [] OTHER -> E.r = eff.r
  /\ E.op = "obs" => ObsOK(E, s[x].c)

Refused(E, x, y) == \* out of range: reported, nothing changes
  /\ E.ex = "oor"
  /\ \/ Small /\ E.op \in {"bad_ins", "bad_er"}
     \/ ~Small /\ E.op \in {"ins_huge", "pop_empty"}
     \/ ~Small /\ E.op \notin {"ins_huge", "pop_empty"} /\ Len(SeqEff(E, s[x].c, s[y].c).a) > c.sc
  /\ Unchanged(E, x, y)

SingleAppend(E, x) == \/ E.op \in AppendOps \cup AppSelf
                      \/ E.op \in {"ins", "insm", "empl", "ins_self", "empl_self"} /\ E.p = Len(s[x].c)
Growing == AppendOps \cup AppSelf \cup InsertOps \cup InsSelf \cup {"ins_fill_self", "res", "res_v", "res_self", "reserve", "shrink", "revert"}
Moved == 0 - 7
Kept(a, b) == IF c.xf # 1 THEN a = b
              ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] \in {b[i], Moved} \* moves which throw may have taken the values
Threw(E, x, y) == \* an element or an allocation threw
  /\ E.fz # 0
  /\ \/ E.fz = 1 /\ E.ex = "boom" /\ (SingleAppend(E, x) => Kept(E.s[x].c, s[x].c))
     \/ E.fz = 2 /\ E.ex = "alloc" /\ (E.op \in Growing => E.s[x].c = s[x].c /\ E.s[x].buf = s[x].buf)
  /\ E.op \in CtorOps => E.s[x].c = <<>>
  /\ E.op \notin {"swap", "c_move", "a_move"} => E.s[y].c = s[y].c

SeqOK(E, x, y) ==
  /\ \A k \in 1..2 : E.s[k].n = Len(E.s[k].c) /\ E.s[k].n <= E.s[k].cap
  /\ ~Small => \A k \in 1..2 : E.s[k].cap = c.sc
  /\ Normal(E, x, y) \/ Refused(E, x, y) \/ Threw(E, x, y)

(* ---- storage --------------------------------------------------------------- *)
Stor(r) == [st |-> r.st, cap |-> r.cap, n |-> r.n]
StoreOK(E, x, y) ==
  LET same == E.s[x].buf = s[x].buf /\ E.s[x].off = s[x].off
      took == E.s[x].buf = s[y].buf /\ E.s[x].off = s[y].off
      osame == E.s[y].buf = s[y].buf /\ E.s[y].cap = s[y].cap /\ E.s[y].st = s[y].st
  IN
  /\ \A k \in 1..2 : StorageInv(c, E.s[k]) /\ (E.op # "end" => (E.s[k].st = (E.s[k].buf = c.ib[k])))
  \* without an instrumented allocator the identity of a heap buffer is unknown
  /\ E.ex = "" => \E sm \in (IF c.la THEN {same} ELSE IF s[x].st # E.s[x].st THEN {FALSE} ELSE BOOLEAN) :
       StorageRule(c, E, Stor(s[x]), Stor(E.s[x]), Stor(s[y]), Stor(E.s[y]), s[x].n, E.s[x].n, sm, took, E.r)
  /\ E.ex = "oor" => same /\ E.s[x].cap = s[x].cap
  /\ OtherKept(E) => osame
  /\ E.op \in {"reserve", "shrink", "revert"} => E.s[x].c = s[x].c
  /\ (c.la /\ E.op # "end" /\ (E.s[x].st \/ same)) => Allocs(E.mem) = {}

(* ---- lifetimes and memory --------------------------------------------------- *)
SlotsOf(r) == {<<r.buf, r.off + i>> : i \in 0..r.n - 1}
MemPost(E, mm) ==
  /\ c.tr => mm.live = SlotsOf(E.s[1]) \cup SlotsOf(E.s[2])
  /\ c.la => mm.blocks = {<<E.s[k].buf, E.s[k].cap, E.s[k].al>> : k \in {k \in 1..2 : ~E.s[k].st}}
  /\ ~c.la => mm.blocks = {}

Step(E) ==
  /\ E.op # "Crash"
  /\ LET x == E.o
         y == 3 - E.o
         f == IF FMEM THEN MemFold(m, E.mem, 1) ELSE [m |-> m, bad |-> 0]
     IN /\ TRUE = (FSEQ => SeqOK(E, x, y))
        /\ TRUE = (FSTORE => StoreOK(E, x, y))
        /\ f.bad = 0
        /\ TRUE = (FMEM => MemPost(E, f.m))
        /\ s' = E.s /\ m' = f.m

Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
