------------------------------- MODULE SpinStore -------------------------------
(* The algorithm: a reference and its count kept as plain data under a spinning      *)
(* lock, copies made in steps, what is taken out let go after the lock. A pointee's    *)
(* destructor loads from the storage. Every interleaving of Threads doing Ops           *)
(* operations each: the lock protects, counts are exact, nothing dead is referenced,     *)
(* every operation takes effect at one point, and no interleaving gets stuck.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Ops, Max
Th == 1..N
VARIABLES lock, st, cnt, dead, reg, left, fr, made
vars == <<lock, st, cnt, dead, reg, left, fr, made>>
\* fr[t]: stack of frames, innermost last
Frame(f, d) == [f |-> f, pc |-> "acq", d |-> d, tmp |-> 0, trash |-> <<>>, ok |-> FALSE]
Pids == 1..Max
Init == /\ lock = 0 /\ st = 1 /\ cnt = [p \in Pids |-> IF p = 1 THEN 1 ELSE 0] /\ dead = {} /\ made = 1
        /\ reg = [t \in Th |-> 0] /\ left = [t \in Th |-> Ops] /\ fr = [t \in Th |-> <<>>]
Top(t) == fr[t][Len(fr[t])]
SetTop(t, x) == fr' = [fr EXCEPT ![t] = [@ EXCEPT ![Len(@)] = x]]
Start(t) ==
  /\ fr[t] = <<>> /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ \E f \in {"load", "store", "xchg", "cas"} :
       IF f = "load" THEN fr' = [fr EXCEPT ![t] = <<Frame(f, 0)>>] /\ UNCHANGED <<made, cnt>>
       ELSE /\ made < Max /\ made' = made + 1 /\ cnt' = [cnt EXCEPT ![made + 1] = 1] /\ fr' = [fr EXCEPT ![t] = <<Frame(f, made + 1)>>]
  /\ UNCHANGED <<lock, st, dead, reg>>
Acquire(t) == fr[t] # <<>> /\ Top(t).pc = "acq" /\ lock = 0 /\ lock' = t /\ SetTop(t, [Top(t) EXCEPT !.pc = "cs"]) /\ UNCHANGED <<st, cnt, dead, reg, left, made>>
Inside(t) ==
  /\ fr[t] # <<>> /\ Top(t).pc = "cs"
  /\ LET x == Top(t) IN
     CASE x.f \in {"load", "nested"} -> SetTop(t, [x EXCEPT !.tmp = st, !.pc = "inc"]) /\ UNCHANGED st
       [] x.f \in {"store", "xchg"} -> SetTop(t, [x EXCEPT !.d = st, !.pc = "rel"]) /\ st' = x.d
       [] x.f = "cas" -> IF st = reg[t] THEN SetTop(t, [x EXCEPT !.d = st, !.ok = TRUE, !.pc = "rel"]) /\ st' = x.d
                         ELSE SetTop(t, [x EXCEPT !.tmp = st, !.pc = "inc"]) /\ UNCHANGED st
  /\ UNCHANGED <<lock, cnt, dead, reg, left, made>>
Inc(t) == /\ fr[t] # <<>> /\ Top(t).pc = "inc"
          /\ cnt' = IF Top(t).tmp = 0 THEN cnt ELSE [cnt EXCEPT ![Top(t).tmp] = @ + 1]
          /\ SetTop(t, [Top(t) EXCEPT !.pc = "rel"]) /\ UNCHANGED <<lock, st, dead, reg, left, made>>
Release(t) ==
  /\ fr[t] # <<>> /\ Top(t).pc = "rel" /\ lock' = 0
  /\ LET x == Top(t) IN
     CASE x.f = "load" -> reg' = [reg EXCEPT ![t] = x.tmp] /\ SetTop(t, [x EXCEPT !.pc = "drop", !.trash = <<reg[t]>>])
       [] x.f = "nested" -> UNCHANGED reg /\ SetTop(t, [x EXCEPT !.pc = "drop", !.trash = <<x.tmp>>])
       [] x.f = "store" -> UNCHANGED reg /\ SetTop(t, [x EXCEPT !.pc = "drop", !.trash = <<x.d>>])
       [] x.f = "xchg" -> reg' = [reg EXCEPT ![t] = x.d] /\ SetTop(t, [x EXCEPT !.pc = "drop", !.trash = <<reg[t]>>])
       [] x.f = "cas" -> IF x.ok THEN UNCHANGED reg /\ SetTop(t, [x EXCEPT !.pc = "drop", !.trash = <<x.d>>])
                         ELSE reg' = [reg EXCEPT ![t] = x.tmp] /\ SetTop(t, [x EXCEPT !.pc = "drop", !.trash = <<reg[t], x.d>>])
  /\ UNCHANGED <<st, cnt, dead, left, made>>
Drop(t) ==
  /\ fr[t] # <<>> /\ Top(t).pc = "drop" /\ UNCHANGED <<lock, st, reg, left, made>>
  /\ LET x == Top(t) IN
     IF x.trash = <<>> THEN fr' = [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<cnt, dead>>
     ELSE LET p == Head(x.trash)  y == [x EXCEPT !.trash = Tail(@)] IN
          IF p = 0 THEN SetTop(t, y) /\ UNCHANGED <<cnt, dead>>
          ELSE /\ cnt' = [cnt EXCEPT ![p] = @ - 1]
               /\ IF cnt[p] = 1 THEN dead' = dead \cup {p} /\ fr' = [fr EXCEPT ![t] = Append([@ EXCEPT ![Len(@)] = y], Frame("nested", 0))]
                  ELSE UNCHANGED dead /\ SetTop(t, y)
Done == \A t \in Th : fr[t] = <<>> /\ (left[t] = 0 \/ made = Max)
Next == (\E t \in Th : Start(t) \/ Acquire(t) \/ Inside(t) \/ Inc(t) \/ Release(t) \/ Drop(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
InCS(t) == fr[t] # <<>> /\ Top(t).pc \in {"cs", "inc", "rel"}
Owners(p) == (IF st = p THEN 1 ELSE 0) + Cardinality({t \in Th : reg[t] = p})
Excl == \A t \in Th : InCS(t) <=> lock = t
\* a frame's own references: what it was given or took out, what it copied, what it is about to drop
RECURSIVE Count(_, _)
Count(q, p) == IF q = <<>> THEN 0 ELSE (IF Head(q) = p THEN 1 ELSE 0) + Count(Tail(q), p)
FrameRefs(x, p) == IF x.pc = "drop" THEN Count(x.trash, p)
                   ELSE (IF x.f \in {"store", "xchg", "cas"} /\ x.d = p THEN 1 ELSE 0) + (IF x.pc = "rel" /\ x.tmp = p /\ ~x.ok THEN 1 ELSE 0)
RECURSIVE Sum(_, _, _)
Sum(t, k, p) == IF k = 0 THEN 0 ELSE FrameRefs(fr[t][k], p) + Sum(t, k - 1, p)
RECURSIVE All(_, _)
All(t, p) == IF t = 0 THEN 0 ELSE Sum(t, Len(fr[t]), p) + All(t - 1, p)
Exact == \A p \in Pids : p <= made => cnt[p] = Owners(p) + All(N, p) /\ (cnt[p] = 0 <=> p \in dead)
Safe == st \notin dead /\ \A t \in Th : reg[t] \notin dead
Outside == \A t \in Th : (fr[t] # <<>> /\ Len(fr[t]) > 1 /\ Top(t).pc = "acq") => lock # t
\* one point of effect: the value stored changes only inside, to what the operation was given, from what it expected
Atomic == [][st' # st => \E t \in Th : lock = t /\ lock' = t /\ Top(t).pc = "cs" /\ st' = Top(t).d /\ (Top(t).f = "cas" => st = reg[t])]_vars
=============================================================================
