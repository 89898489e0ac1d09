------------------------------ MODULE FileOutMC ------------------------------
(* The buffer over a growing container with any growth policy: a physical array,  *)
(* the put area [base, pptr, epptr) within it and the end of written data as of    *)
(* the last seek.  It refines the file, and never writes outside of the array.     *)
(* Two: with copying and moving between two of them.                               *)
EXTENDS FileOut, TLC, Json
CONSTANTS MaxLen, Two
Limit == -1
VARIABLES m, f, m2, f2, op, e   \* m2, f2: the second buffer and its file
vars == <<m, f, m2, f2, op, e>>
\* m: [arr, off, mark]   arr includes spare room; epptr = end of arr
V(x) == <<x.d, x.p, x.fail, x.bad>>
View == <<V(f), V(f2)>>
MCView == <<m, f, m2, f2>>
Written == Max(m.off, m.mark)
Spare(n) == [k \in 1..n |-> 0]
Pad(a, n) == IF Len(a) >= n THEN a ELSE a \o Spare(n - Len(a))
Empty == [arr |-> <<>>, off |-> 0, mark |-> 0]
Init == m = Empty /\ f = File /\ m2 = Empty /\ f2 = File /\ op = <<"init">> /\ e = [op |-> "init"]
DoneTwo(nm, args, ev, mm, ff, nn, hh) == m' = mm /\ f' = ff /\ m2' = nn /\ f2' = hh /\ op' = <<nm>> \o args /\ e' = ev @@ [op |-> nm, ex |-> "", r |-> -2, txt |-> <<>>, a |-> 0, d |-> 0, c |-> <<>>]
Done(nm, args, ev, mm, ff) == DoneTwo(nm, args, ev, mm, ff, m2, f2)
Put(nm, t, args) ==
  /\ Len(f.d) <= MaxLen /\ f.p + Len(t) <= MaxLen
  /\ IF nm \in StreamWrites /\ f.fail THEN Done(nm, args, [txt |-> t], m, f)
     ELSE LET rem == Len(m.arr) - m.off
              need == IF rem < Len(t) THEN Len(m.arr) + (Len(t) - rem) ELSE Len(m.arr) IN
          \E extra \in IF need > Len(m.arr) THEN 0..2 ELSE {0} :
            LET arr == Pad(m.arr, need + extra)
                mm == [m EXCEPT !.arr = SubSeq(arr, 1, m.off) \o t \o SubSeq(arr, m.off + Len(t) + 1, Len(arr)), !.off = m.off + Len(t)]
            IN Done(nm, args, [txt |-> t, r |-> IF nm = "sputn" THEN Len(t) ELSE -2], mm, Write(f, t))
Seek(nm, args, a, d) ==
  LET t == SeekTo([op |-> nm, a |-> a, d |-> d], f)
      ok == t >= 0 /\ t <= Written
      st == nm \in {"seekp", "seekpd"}
  IN IF st /\ f.fail THEN Done(nm, args, [a |-> a, d |-> d], m, f)
     ELSE Done(nm, args, [a |-> a, d |-> d, r |-> IF st THEN -2 ELSE IF ok THEN t ELSE -1],
               IF ok THEN [m EXCEPT !.mark = Written, !.off = t] ELSE [m EXCEPT !.mark = Written],
               IF ok THEN [f EXCEPT !.p = t] ELSE IF st THEN [f EXCEPT !.fail = TRUE] ELSE f)
\* the characters the driver writes for (seed, index)
Ch(x) == <<1, 65, 122, 127, 128, 200, 255, 0>>[(x % 8) + 1]
Txt(n, seed) == [k \in 1..n |-> Ch(seed + (k - 1))]
\* the put area of a copy: at the same offset of its own array, which may have less room (take: the array itself)
Clone(x) == {[x EXCEPT !.arr = SubSeq(x.arr, 1, k)] : k \in Max(x.off, x.mark)..Len(x.arr)}
Copies ==
  \/ DoneTwo("sw", <<>>, <<>>, m2, f2, m, f)
  \/ \E nm \in SelfOps : Done(nm, <<>>, <<>>, m, f)
  \/ \E x \in Clone(m) : \/ DoneTwo("cc", <<>>, <<>>, m, f, x, [f EXCEPT !.bad = FALSE, !.fail = FALSE])
                          \/ DoneTwo("ac", <<>>, <<>>, m, f, x, [f2 EXCEPT !.d = f.d, !.p = f.p])
  \/ DoneTwo("mc", <<>>, <<>>, Empty, [f EXCEPT !.d = <<>>, !.p = 0], m, [f EXCEPT !.bad = FALSE, !.fail = FALSE])
  \/ DoneTwo("am", <<>>, <<>>, Empty, [f EXCEPT !.d = <<>>, !.p = 0], m, [f2 EXCEPT !.d = f.d, !.p = f.p])
Next ==
  \/ Two /\ Copies
  \/ \E x \in {0, 1} : Put("putc", Txt(1, x), <<x>>)
  \/ \E n \in {0, 2, 3} : Put("sputn", Txt(n, 1), <<n, 1>>) \/ Put("write", Txt(n, 0), <<n, 0>>)
  \/ \E a \in -1..MaxLen + 1 : Seek("seekp", <<a>>, a, 0) \/ Seek("seekpos", <<a>>, a, 0)
  \/ \E a \in -2..2, d \in 1..2 : Seek("seekpd", <<a, d>>, a, d) \/ Seek("seekoff", <<a, d>>, a, d)
  \/ Done("tellp", <<>>, [r |-> IF f.fail THEN -1 ELSE m.off], m, f)
  \/ Done("sclear", <<>>, <<>>, m, [f EXCEPT !.fail = FALSE])
  \/ Done("clear", <<>>, <<>>, [arr |-> <<>>, off |-> 0, mark |-> 0], [f EXCEPT !.d = <<>>, !.p = 0])
  \/ Done("get", <<>>, [c |-> SubSeq(m.arr, 1, Written), r |-> Written], [arr |-> <<>>, off |-> 0, mark |-> 0], [f EXCEPT !.d = <<>>, !.p = 0])
Spec == Init /\ [][Next]_vars
Same(x, y) == LET w == Max(x.off, x.mark) IN w = Len(y.d) /\ x.off = y.p /\ Len(x.arr) >= w /\ SubSeq(x.arr, 1, w) = y.d
Inv == Same(m, f) /\ Same(m2, f2)
Obeys == [][Pair(Limit, e', f, f2, f', f2')]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
