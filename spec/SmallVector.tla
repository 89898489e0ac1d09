---------------------------- MODULE SmallVector ----------------------------
(* Two vectors with a static buffer of SC elements that fall back to an       *)
(* allocator, returning to the static buffer below RB elements.               *)
(* The contents follow SeqVec; this module adds where the elements live.      *)
EXTENDS SeqVec, FiniteSets

(* storage of one vector: [st: in the static buffer, cap: capacity, n: size]  *)
(* same: the elements of the target are in the same buffer as before          *)

Fits(c, n) == n <= c.sc

(* Storage rule for operations that may only add elements (or reserve room)   *)
GrowRule(c, pre, post, need, same) ==
  IF pre.st
  THEN IF need <= c.sc THEN post.st /\ same /\ post.cap = c.sc
                       ELSE ~post.st /\ post.cap >= need
  ELSE IF need <= pre.cap THEN ~post.st /\ same /\ post.cap = pre.cap
                          ELSE ~post.st /\ ~same /\ post.cap >= need

(* ... for operations replacing the contents by n elements: may go back to the *)
(* static buffer only below the threshold                                      *)
AssignRule(c, pre, post, n, same) ==
  \/ GrowRule(c, pre, post, n, same)
  \/ ~pre.st /\ n < c.rb /\ post.st /\ post.cap = c.sc

(* ... for erasing: must go back below the threshold                           *)
EraseRule(c, pre, post, n, num, same) ==
  IF ~pre.st /\ n < c.rb /\ num > 0
  THEN post.st /\ post.cap = c.sc
  ELSE \/ same /\ post.st = pre.st /\ post.cap = pre.cap
       \/ num = 0 /\ ~pre.st /\ n < c.rb /\ post.st /\ post.cap = c.sc

ClearRule(c, pre, post, same) ==
  IF ~pre.st /\ c.rb > 0 THEN post.st /\ post.cap = c.sc
  ELSE same /\ post.st = pre.st /\ post.cap = pre.cap

Fresh(c, post, n) == \* a newly constructed vector of n elements
  IF n <= c.sc THEN post.st /\ post.cap = c.sc ELSE ~post.st /\ post.cap >= n

ShrinkRule(c, pre, post, n, same, r) ==
  IF pre.st THEN post.st /\ same /\ post.cap = c.sc /\ r = 0
  ELSE IF n <= c.sc THEN post.st /\ post.cap = c.sc /\ r = 1
  ELSE IF n = pre.cap THEN ~post.st /\ same /\ post.cap = pre.cap /\ r = 0
  ELSE ~post.st /\ ~same /\ post.cap = n /\ r = 1

RevertRule(c, pre, post, n, same, r) ==
  IF n <= c.sc THEN post.st /\ post.cap = c.sc /\ r = 1 /\ (pre.st => same)
  ELSE ~post.st /\ same /\ post.cap = pre.cap /\ r = 0

(* What must hold of the target's storage. n: size afterwards, m: size before, *)
(* took: the target now uses the buffer the other vector had                    *)
StorageRule(c, e, pre, post, opre, opost, m, n, same, took, r) ==
  CASE e.op \in {"c_def", "c_n", "c_fill", "c_range", "c_il", "c_copy", "c_copya"} -> Fresh(c, post, n)
    [] e.op \in {"c_move", "a_move"} ->
         /\ opost.st /\ opost.cap = c.sc
         /\ IF opre.st THEN post.st /\ post.cap = c.sc
                       ELSE ~post.st /\ took /\ post.cap = opre.cap
    [] e.op \in {"a_copy", "as_fill", "as_range", "as_il"} -> AssignRule(c, pre, post, n, same)
    [] e.op \in AppendOps \cup AppSelf \cup InsertOps \cup InsSelf \cup {"ins_fill_self"} -> GrowRule(c, pre, post, n, same)
    [] e.op \in {"res", "res_v", "res_self"} ->
         IF n >= m THEN GrowRule(c, pre, post, n, same)
         ELSE (same /\ post.st = pre.st /\ post.cap = pre.cap) \/ (~pre.st /\ n < c.rb /\ post.st /\ post.cap = c.sc)
    [] e.op = "reserve" -> GrowRule(c, pre, post, e.n, same)
    [] e.op \in {"er", "er_range", "pop"} -> EraseRule(c, pre, post, n, m - n, same)
    [] e.op = "clear" -> ClearRule(c, pre, post, same)
    [] e.op = "shrink" -> ShrinkRule(c, pre, post, n, same, r)
    [] e.op = "revert" -> RevertRule(c, pre, post, n, same, r)
    [] e.op = "swap" -> /\ IF opre.st THEN post.st ELSE ~post.st /\ post.cap = opre.cap
                        /\ IF pre.st THEN opost.st ELSE ~opost.st /\ opost.cap = pre.cap
    [] e.op = "end" -> TRUE
    [] OTHER -> same /\ post.st = pre.st /\ post.cap = pre.cap

(* operations that must leave the other vector's storage alone *)
OtherKept(e) == e.op \notin {"c_move", "a_move", "swap", "end"}

(* in every state *)
StorageInv(c, s) ==
  /\ s.st => s.cap = c.sc
  /\ s.n <= s.cap
=============================================================================
