------------------------------- MODULE FileOut -------------------------------
(* A random-access file being written: d its characters, p the position.         *)
(* lim: the most it can hold, or -1.  Stream state: bad, fail.                     *)
EXTENDS Integers, Sequences
Over(d, p, t) == SubSeq(d, 1, p) \o t \o SubSeq(d, p + Len(t) + 1, Len(d))
Max(a, b) == IF a > b THEN a ELSE b
NewLen(f, t) == Max(Len(f.d), f.p + Len(t))
Write(f, t) == [f EXCEPT !.d = Over(f.d, f.p, t), !.p = f.p + Len(t)]
Base(f, dir) == CASE dir = 0 -> 0 [] dir = 1 -> f.p [] dir = 2 -> Len(f.d)
SeekTo(e, f) == IF e.op \in {"seekpos", "seekp"} THEN e.a ELSE Base(f, e.d) + e.a
Fits(lim, f, t) == lim = -1 \/ NewLen(f, t) <= lim
File == [d |-> <<>>, p |-> 0, bad |-> FALSE, fail |-> FALSE]
StreamWrites == {"putc", "write", "fmt"}
BufWrites == {"sputc", "sputn"}
(* e: operation with its outcome; whether f -> g is allowed *)
Outcome(lim, e, f, g) ==
  CASE e.op = "new" -> g = File /\ e.ex = ""
    [] e.op \in BufWrites \cup StreamWrites ->
         IF e.op \in StreamWrites /\ (f.bad \/ f.fail)
         THEN e.ex = "" /\ g = [f EXCEPT !.bad = f.bad, !.fail = f.fail]
         ELSE IF Fits(lim, f, e.txt)
         THEN /\ e.ex = "" /\ g = Write(f, e.txt)
              /\ e.op = "sputc" => e.r = 1
              /\ e.op = "sputn" => e.r = Len(e.txt)
         ELSE \* no room: refused; whether part of a block was written is unspecified
              /\ \E k \in 0..Len(e.txt) : LET w == Write(f, SubSeq(e.txt, 1, k)) IN g.d = w.d /\ g.p = w.p /\ Fits(lim, f, SubSeq(e.txt, 1, k))
              /\ IF e.op \in StreamWrites THEN e.ex = "" /\ g.bad ELSE (e.ex # "" \/ e.r < Len(e.txt)) /\ g.bad = f.bad /\ g.fail = f.fail
    [] e.op \in {"seekpos", "seekoff"} ->
         LET t == SeekTo(e, f) IN
         /\ e.ex = ""
         /\ IF t \in 0..Len(f.d) THEN e.r = t /\ g = [f EXCEPT !.p = t] ELSE e.r = -1 /\ g = f
    [] e.op \in {"seekp", "seekpd"} ->
         LET t == SeekTo(e, f) IN
         /\ e.ex = ""
         /\ IF f.fail THEN g = f
            ELSE IF t \in 0..Len(f.d) THEN g = [f EXCEPT !.p = t] ELSE g = [f EXCEPT !.fail = TRUE]
    [] e.op = "tellp" -> e.ex = "" /\ g = f /\ e.r = (IF f.fail THEN -1 ELSE f.p)
    [] e.op = "clear" -> e.ex = "" /\ g = [f EXCEPT !.d = <<>>, !.p = 0]
    [] e.op = "sclear" -> e.ex = "" /\ g = [f EXCEPT !.bad = FALSE, !.fail = FALSE]
    [] e.op = "get" -> e.ex = "" /\ e.c = f.d /\ e.r = Len(f.d) /\ g = [f EXCEPT !.d = <<>>, !.p = 0]
    [] e.op = "flush" -> e.ex = "" /\ g = f
(* Two buffers; what every other operation does, it does with the first.           *)
(* "sw" exchanges their roles; the rest make the second a copy of the first, or    *)
(* give it the first one's data (a new one, with a new stream, for cc and mc).      *)
CopyOps == {"cc", "mc", "ac", "am"}
SelfOps == {"asc", "asm"}
Pair(lim, e, f, o, g, q) ==
  LET taken == [f EXCEPT !.d = <<>>, !.p = 0] IN
  CASE e.op = "sw" -> e.ex = "" /\ g = o /\ q = f
    [] e.op \in SelfOps -> e.ex = "" /\ g = f /\ q = o
    [] e.op \in {"cc", "mc"} -> e.ex = "" /\ q = [d |-> f.d, p |-> f.p, bad |-> FALSE, fail |-> FALSE] /\ g = (IF e.op = "cc" THEN f ELSE taken)
    [] e.op \in {"ac", "am"} -> e.ex = "" /\ q = [o EXCEPT !.d = f.d, !.p = f.p] /\ g = (IF e.op = "ac" THEN f ELSE taken)
    [] OTHER -> q = o /\ Outcome(lim, e, f, g)
=============================================================================
