-------------------------------- MODULE FileIn --------------------------------
(* A range of characters d being read through a stream: p the position,          *)
(* eof / fail the stream's state, w the wrappers around it, innermost last: the    *)
(* position each one restores when it ends, -1 for one that restores nothing, -2   *)
(* where it is unspecified (the stream was not good when the redirect began).      *)
EXTENDS Integers, Sequences
Rest(f) == Len(f.d) - f.p
At(f, i) == f.d[i + 1]
Piece(f, n) == SubSeq(f.d, f.p + 1, f.p + n)
Min(a, b) == IF a < b THEN a ELSE b
Good(f) == ~f.eof /\ ~f.fail
Fresh(d) == [d |-> d, p |-> 0, eof |-> FALSE, fail |-> FALSE, w |-> <<>>]
Base(f, dir) == CASE dir = 0 -> 0 [] dir = 1 -> f.p [] dir = 2 -> Len(f.d)
Goal(e, f) == IF e.op \in {"seekpos", "seekg", "redir"} THEN e.a ELSE Base(f, e.d) + e.a
Inside(f, t) == t \in 0..Len(f.d)
SeekG(f, t) == \* istream::seekg: end of file is forgotten, a failed stream does not move
  LET g == [f EXCEPT !.eof = FALSE] IN
  IF f.fail THEN g ELSE IF Inside(f, t) THEN [g EXCEPT !.p = t] ELSE [g EXCEPT !.fail = TRUE]
Ended(f) == [f EXCEPT !.eof = TRUE, !.fail = TRUE]
Block(f, n) == IF n <= Rest(f) THEN [f EXCEPT !.p = f.p + n] ELSE Ended([f EXCEPT !.p = Len(f.d)])
Enter(f) == IF Good(f) THEN f ELSE [f EXCEPT !.fail = TRUE]      \* what every input function does first

(* result: [g |-> state afterwards, r |-> result, gc |-> count, got |-> characters] *)
Res(g, r) == [g |-> g, r |-> r, gc |-> -2, got |-> <<>>]
Effect(e, f) ==
  CASE e.op = "new" -> Res(Fresh(e.data), -2)
    [] e.op = "reset" -> Res([f EXCEPT !.d = e.data, !.p = 0], -2)
    [] e.op = "sgetc" -> Res(f, IF Rest(f) > 0 THEN At(f, f.p) ELSE -1)
    [] e.op = "sbumpc" -> IF Rest(f) > 0 THEN Res([f EXCEPT !.p = @ + 1], At(f, f.p)) ELSE Res(f, -1)
    [] e.op = "snextc" -> IF Rest(f) > 1 THEN Res([f EXCEPT !.p = @ + 1], At(f, f.p + 1))
                          ELSE Res([f EXCEPT !.p = Len(f.d)], -1)
    [] e.op \in {"sgetn", "sgetnb"} -> LET n == IF e.op = "sgetnb" THEN Rest(f) ELSE Min(e.a, Rest(f)) IN
                          [g |-> [f EXCEPT !.p = @ + n], r |-> n, gc |-> -2, got |-> Piece(f, n)]
    [] e.op = "sunget" -> IF f.p > 0 THEN Res([f EXCEPT !.p = @ - 1], At(f, f.p - 1)) ELSE Res(f, -1)
    [] e.op = "putback" -> IF f.p > 0 /\ At(f, f.p - 1) = e.ch THEN Res([f EXCEPT !.p = @ - 1], e.ch) ELSE Res(f, -1)
    [] e.op = "avail" -> Res(f, Rest(f))
    [] e.op \in {"seekpos", "seekoff"} -> LET t == Goal(e, f) IN IF Inside(f, t) THEN Res([f EXCEPT !.p = t], t) ELSE Res(f, -1)
    [] e.op = "get" -> IF ~Good(f) THEN Res(Enter(f), -1) ELSE IF Rest(f) > 0 THEN Res([f EXCEPT !.p = @ + 1], At(f, f.p)) ELSE Res(Ended(f), -1)
    [] e.op = "peek" -> IF ~Good(f) THEN Res(Enter(f), -1) ELSE IF Rest(f) > 0 THEN Res(f, At(f, f.p)) ELSE Res([f EXCEPT !.eof = TRUE], -1)
    [] e.op \in {"read", "xread"} ->
         LET r == IF e.op = "xread" THEN 1 ELSE -2
             n == IF Good(f) THEN Min(e.a, Rest(f)) ELSE 0 IN
         [g |-> IF Good(f) THEN Block(f, e.a) ELSE Enter(f), r |-> r, gc |-> n, got |-> Piece(f, n)]
    [] e.op = "xrsh" -> IF ~Good(f) THEN Res(Enter(f), 1) ELSE IF Rest(f) > 0 THEN Res([f EXCEPT !.p = @ + 1], At(f, f.p)) ELSE Res(Ended(f), 1)
    [] e.op = "unget" -> LET h == [f EXCEPT !.eof = FALSE] IN IF f.fail THEN Res(h, -2) ELSE Res([h EXCEPT !.p = @ - 1], -2)
    [] e.op \in {"seekg", "seekgd"} -> Res(SeekG(f, Goal(e, f)), -2)
    [] e.op = "tellg" -> IF Good(f) THEN Res(f, f.p) ELSE Res(Enter(f), -1)
    [] e.op = "sclear" -> Res([f EXCEPT !.eof = FALSE, !.fail = FALSE], -2)
    [] e.op = "wrap" -> IF Len(f.w) < 3 THEN Res([f EXCEPT !.w = Append(@, -1)], -2) ELSE Res(f, -2)
    [] e.op = "redir" -> IF Len(f.w) >= 3 THEN Res(f, -2)
                         ELSE IF Good(f) THEN Res([SeekG(f, e.a) EXCEPT !.w = Append(@, f.p)], -2)
                         ELSE Res([SeekG(Enter(f), e.a) EXCEPT !.w = Append(@, -2)], -2)
    [] OTHER -> Res(f, -2)
Outcome(e, f, g) ==
  /\ e.ex = ""
  /\ IF e.op # "xend"
     THEN LET q == Effect(e, f) IN q.g = g /\ q.r = e.r /\ q.gc = e.gc /\ q.got = e.got
     ELSE LET b == f.w[Len(f.w)]
              h == [f EXCEPT !.w = SubSeq(@, 1, Len(@) - 1)] IN
          CASE b = -1 -> g = h
            [] b = -2 -> g.d = h.d /\ g.w = h.w /\ (f.fail => g.fail)       \* position and the rest unspecified
            [] OTHER -> \* back where it was, at which it was good: end of file is forgotten, a failure is not
                 g = [h EXCEPT !.p = (IF Inside(h, b) THEN b ELSE g.p), !.eof = (IF h.fail THEN g.eof ELSE FALSE), !.fail = (IF Inside(h, b) THEN h.fail ELSE g.fail)]
                 /\ (g.eof => h.eof)
=============================================================================
