----------------------------- MODULE PodVector -----------------------------
(* Vectors of trivial elements over a raw allocator.  An element is a tuple of *)
(* units (so that reinterpretation as another element type can be stated).     *)
(* Contents follow SeqVec; this module adds unspecified new elements,          *)
(* reinterpretation, and the ledger of the blocks the vectors hold.            *)
EXTENDS SeqVec, FiniteSets

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Chunk(f, z) == [k \in 1..(Len(f) \div z) |-> SubSeq(f, (k - 1) * z + 1, k * z)]
Recast(s, z) == Chunk(Flat(s), z)     \* what does not fill an element is lost
Zero(z) == [k \in 1..z |-> 0]
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

(* is t a possible contents of the target, z: units per element of the target *)
ContentsOK(e, s, o, t, z, zero) ==
  CASE e.op \in {"c_n", "res"} ->
         LET keep == IF e.op = "c_n" THEN <<>> ELSE SubSeq(s, 1, IF e.n < Len(s) THEN e.n ELSE Len(s)) IN
         /\ Len(t) = e.n /\ Prefix(keep, t)
         /\ zero => \A k \in Len(keep) + 1..e.n : t[k] = Zero(z)
    [] e.op = "emplb0" -> Len(t) = Len(s) + 1 /\ Prefix(s, t)
    [] e.op \in {"rc_copy", "rc_take"} -> t = Recast(o, z)
    [] e.op = "as_self" -> t = Fill(e.n, s[e.i + 1])
    [] e.op = "a_selfm" -> TRUE
    [] OTHER -> t = SeqEff(e, s, o).a
(* a request for memory was refused: what only adds or moves elements has no effect; *)
(* what replaces all elements leaves a vector which can be used                     *)
Replaces == {"a_copy", "as_fill", "as_range", "as_il", "as_self", "rc_copy"}
Builds == {"c_n", "c_fill", "c_range", "c_il", "c_copy", "c_copya"}
Keeps == InsertOps \cup InsSelf \cup AppendOps \cup AppSelf
         \cup {"ins_fill_self", "emplb0", "res", "res_v", "res_self", "reserve", "shrink"}
ThrewOK(e, s, t) ==
  CASE e.op \in Builds -> t = <<>>
    [] e.op \in Replaces -> TRUE
    [] e.op \in Keeps -> t = s
    [] OTHER -> FALSE       \* nothing else asks for memory
Refused(log) == \E k \in 1..Len(log) : log[k][1] = 9
SourceAfter(e, s, o) ==
  CASE e.op \in {"c_move", "a_move", "rc_take", "end"} -> <<>>
    [] e.op = "swap" -> s
    [] OTHER -> o
ResultOK(e, s, o, moved) == \* moved: the address of the elements changed
  CASE e.op \in {"push", "push_self", "emplb0"} -> e.r = Len(s)
    [] e.op \in {"reserve", "res", "res_v", "res_self", "shrink"} -> e.r = B2I(moved)
    [] e.op \in {"rc_copy", "rc_take", "c_n", "as_self", "a_selfm"} -> e.r = -1
    [] OTHER -> e.r = SeqEff(e, s, o).r
CapOK(e, pre, post) == /\ post.n <= post.cap
                       /\ e.op = "reserve" => post.cap >= e.n /\ post.cap >= pre.cap
Transfers == {"c_move", "a_move", "rc_take"}

(* ---- blocks: <<id, bytes, allocator>>; events as the allocator logs them ---- *)
(* <<5,b,bytes,a>> malloc  <<6,b,a>> free  <<7,b,b',bytes,a>> realloc  <<8,b,bytes,ok,a>> expand *)
(* <<9,a>> a request for memory, refused *)
Has(bl, b, a) == \E x \in bl : x[1] = b /\ x[3] = a
Ids(bl) == {x[1] : x \in bl}
PodEvOK(bl, v, ex) ==
  CASE v[1] = 5 -> v[2] \notin Ids(bl)
    [] v[1] = 6 -> Has(bl, v[2], v[3])
    [] v[1] = 7 -> ~ex /\ (v[2] = 0 \/ Has(bl, v[2], v[5])) /\ (v[3] = v[2] \/ v[3] \notin Ids(bl))
    [] v[1] = 9 -> TRUE
    [] v[1] = 8 -> ex /\ Has(bl, v[2], v[5])
    [] OTHER -> FALSE
Drop(bl, b) == {x \in bl : x[1] # b}
PodEvStep(bl, v) ==
  CASE v[1] = 5 -> bl \cup {<<v[2], v[3], v[4]>>}
    [] v[1] = 6 -> Drop(bl, v[2])
    [] v[1] = 7 -> Drop(bl, v[2]) \cup {<<v[3], v[4], v[5]>>}
    [] v[1] = 9 -> bl
    [] v[1] = 8 -> IF v[4] = 1 THEN Drop(bl, v[2]) \cup {<<v[2], v[3], v[5]>>} ELSE bl
RECURSIVE PodFold(_, _, _, _)
PodFold(bl, log, k, ex) == IF k > Len(log) THEN [ok |-> TRUE, bl |-> bl]
                           ELSE IF ~PodEvOK(bl, log[k], ex) THEN [ok |-> FALSE, bl |-> bl]
                           ELSE PodFold(PodEvStep(bl, log[k]), log, k + 1, ex)
\* every block is held by exactly one vector, with its allocator, and is large enough
Held(bl, S, bytes) ==
  /\ \A k \in DOMAIN S : S[k].blk # 0 => \E x \in bl : x[1] = S[k].blk /\ x[3] = S[k].al /\ S[k].off >= 0 /\ S[k].off + S[k].cap * bytes[k] <= x[2]
  /\ \A k \in DOMAIN S : S[k].blk = 0 => S[k].cap = 0
  /\ \A j, k \in DOMAIN S : j # k /\ S[j].blk # 0 => S[j].blk # S[k].blk
  /\ Ids(bl) = {S[k].blk : k \in DOMAIN S} \ {0}
  /\ Cardinality(bl) = Cardinality(Ids(bl))
=============================================================================
