------------------------------ MODULE PodTrace ------------------------------
(* Accepts a recorded history of pod_vectors (1, 2 of one element type, 3, 4   *)
(* of another) exactly when the specification allows it.                       *)
(* FOCUS: SEQ contents, results, capacity   MEM blocks, alignment, transfer     *)
EXTENDS PodVector, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
FSEQ == IOEnv.FOCUS = "SEQ"

VARIABLES tid, l, s, bl
vars == <<tid, l, s, bl>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Z(k) == IF k <= 2 THEN c.zt ELSE c.zu
Bytes == <<c.bt, c.bt, c.bu, c.bu>>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Traces[tid].cfg.init /\ bl = {}

\* what fits is done in place, as std::vector does it: pointers to the elements in front of the change stay valid
InPlace == InsertOps \cup InsSelf \cup AppendOps \cup AppSelf
           \cup {"ins_fill_self", "emplb0", "er", "er_range", "pop", "clear", "res", "res_v", "res_self", "reserve", "set", "obs", "eq", "a_self"}
Sizes(E) == \A k \in 1..4 : Len(E.s[k].c) = E.s[k].n /\ E.s[k].n <= E.s[k].cap /\ E.s[k].bs = E.s[k].n * Bytes[k]
Rest(E, x, y) == \A k \in 1..4 \ {x, y} : E.op # "end" => E.s[k] = s[k]
SeqThrew(E) ==
  /\ Refused(E.mem) /\ Sizes(E) /\ Rest(E, E.o, E.o)
  /\ ThrewOK(E, s[E.o].c, E.s[E.o].c)
  /\ E.op \in Keeps => E.s[E.o] = s[E.o]
MemThrew(E, f) == f.ok /\ Held(f.bl, E.s, Bytes) /\ \A k \in 1..4 : ~E.s[k].mis
SeqOK(E) ==
  LET x == E.o
      y == E.y
      moved == s[x].blk # E.s[x].blk \/ s[x].off # E.s[x].off IN
  /\ ~Refused(E.mem) /\ Sizes(E)
  /\ ContentsOK(E, s[x].c, s[y].c, E.s[x].c, Z(x), c.zero)
  /\ E.s[y].c = SourceAfter(E, s[x].c, s[y].c)
  /\ ResultOK(E, s[x].c, s[y].c, moved)
  /\ CapOK(E, s[x], E.s[x])
  /\ E.op \in InPlace /\ E.s[x].n <= s[x].cap /\ (E.op = "reserve" => E.n <= s[x].cap) => ~moved /\ E.s[x].cap = s[x].cap
  /\ E.op = "obs" => ObsOK(E, s[x].c)
  /\ Rest(E, x, y)

MemOK(E, f) ==
  LET x == E.o
      y == E.y IN
  /\ f.ok /\ Held(f.bl, E.s, Bytes)
  /\ \A k \in 1..4 : ~E.s[k].mis
  /\ E.op \in Transfers => /\ E.s[x].blk = s[y].blk /\ E.s[x].off = s[y].off
                           /\ E.s[y].blk = 0 /\ E.s[y].n = 0
                           /\ \A k \in 1..Len(E.mem) : E.mem[k][1] = 6
  /\ E.op = "swap" => E.s[x].blk = s[y].blk /\ E.s[y].blk = s[x].blk /\ E.mem = <<>>
  /\ E.op \notin Transfers \cup {"swap", "end"} => E.s[y].blk = s[y].blk /\ E.s[y].cap = s[y].cap

Step(E) == /\ E.op # "Crash"
           /\ LET f == PodFold(bl, E.mem, 1, c.ex) IN
              /\ TRUE = IF E.ex THEN (IF FSEQ THEN SeqThrew(E) ELSE MemThrew(E, f))
                        ELSE IF FSEQ THEN SeqOK(E) ELSE MemOK(E, f)
              /\ s' = E.s /\ bl' = f.bl

Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
