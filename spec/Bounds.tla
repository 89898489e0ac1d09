------------------------------- MODULE Bounds -------------------------------
(* How misuse is reported.  A container or a view is a sequence (a map: one       *)
(* value per key, -1 for none); a configuration says how each class of misuse is  *)
(* reported: by std::out_of_range ("oor"), by an assertion ("abort"), or not at   *)
(* all ("ub": such a call is not made, except to see that merely reaching a place *)
(* of the storage beyond the contents is not reported).  Whatever the configuration, use within   *)
(* bounds is never reported and does the same.                                    *)
(* c: kind, cap, eh (0 none, 1 throw, 2 assert, 3 both), nd (no assertions), nb   *)
(* (bounds checks disabled), nt (maps assert instead of throwing).                *)
EXTENDS Integers, Sequences
Views == {"span", "stride", "poly", "mv", "cmv"}
Vecs == {"sv", "sm"}
Asserted(c) == IF c.nd THEN "ub" ELSE "abort"
Report(c, class) ==
  CASE class = "range" -> (CASE c.eh = 0 -> "ub" [] c.eh = 1 -> "oor" [] c.eh = 2 -> Asserted(c) [] OTHER -> IF c.nd THEN "oor" ELSE "abort")
    [] class = "bounds" -> IF c.nb THEN "ub" ELSE Asserted(c)
    [] class = "key" -> IF c.nt THEN Asserted(c) ELSE "oor"
    [] OTHER -> "ok"
Huge == -1            \* a size or an index as large as can be
Rep(n, x) == [i \in 1..n |-> x]
Up(n, x) == [i \in 1..n |-> x + i - 1]
\* the values a call brings: none given, one repeated, or a range
New(e) == CASE e.op \in {"make", "assign"} -> (CASE e.k = 0 -> Rep(e.n, 0) [] e.k = 1 -> Rep(e.n, e.v) [] OTHER -> Up(e.n, e.v))
            [] e.op = "grow" -> <<e.v>>
            [] e.op = "ins" -> (CASE e.k < 3 -> <<e.v>> [] e.k = 3 -> Rep(e.n, e.v) [] OTHER -> Up(e.n, e.v))
            [] OTHER -> <<>>
Count(e) == CASE e.op = "grow" \/ (e.op = "ins" /\ e.k < 3) -> 1 [] OTHER -> e.n
Misuse(c, e, s) ==
  LET len == Len(s) IN
  CASE c.kind = "map" -> IF e.op \in {"get", "set"} /\ s[e.p + 1] = -1 THEN "key" ELSE ""
    [] e.op \in {"get", "set"} -> IF e.p = Huge \/ e.p >= len THEN "bounds" ELSE ""
    [] c.kind = "sv" -> (CASE e.op \in {"make", "assign", "resize"} -> IF e.n = Huge \/ e.n > c.cap THEN "range" ELSE ""
                           [] e.op \in {"grow", "ins"} -> IF Count(e) = Huge \/ Count(e) > c.cap - len THEN "range" ELSE ""
                           [] OTHER -> "")
    [] c.kind = "sm" -> (CASE e.op = "ins" -> IF e.p > len THEN "range" ELSE ""
                           [] e.op = "era" -> IF e.p >= len THEN "range" ELSE ""
                           [] e.op = "erar" -> IF e.p > e.n \/ e.n > len THEN "range" ELSE ""
                           [] OTHER -> "")
    [] OTHER -> ""
\* what is meant, for calls within bounds (e.n: for erar, the end)
Front(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n + 1, Len(s))
After(c, e, s) ==
  IF c.kind = "map" THEN CASE e.op \in {"set", "put"} -> [s EXCEPT ![e.p + 1] = e.v] [] e.op = "del" -> [s EXCEPT ![e.p + 1] = -1] [] OTHER -> s
  ELSE CASE e.op \in {"make", "assign"} -> New(e)
         [] e.op = "grow" -> s \o New(e)
         [] e.op = "ins" -> Front(s, e.p) \o New(e) \o From(s, e.p)
         [] e.op = "resize" -> IF e.n <= Len(s) THEN Front(s, e.n) ELSE s \o Rep(e.n - Len(s), IF e.k = 0 THEN 0 ELSE e.v)
         [] e.op = "era" -> Front(s, e.p) \o From(s, e.p + 1)
         [] e.op = "erar" -> Front(s, e.p) \o From(s, e.n)
         [] e.op = "pop" -> Front(s, Len(s) - 1)
         [] e.op = "clear" -> <<>>
         [] e.op = "set" -> [s EXCEPT ![e.p + 1] = e.v]
         [] OTHER -> s
Result(c, e, s) == CASE e.op = "get" -> s[e.p + 1]
                     [] e.op = "front" -> s[1] [] e.op = "back" -> s[Len(s)]
                     [] e.op \in {"ins", "era", "erar"} -> e.p
                     [] OTHER -> -1
\* [o: how it ends, s: the contents then, r: the result]
Outcome(c, e, s) == LET m == Report(c, Misuse(c, e, s)) IN
  IF m = "ok" THEN [o |-> m, s |-> After(c, e, s), r |-> Result(c, e, s)]
  ELSE IF m = "ub" THEN [o |-> "ok", s |-> s, r |-> -2] ELSE [o |-> m, s |-> s, r |-> -1]
\* calls which are made at all (misuse that no document mentions is not)
Meant(c, e, s) ==
  /\ e.op \in (CASE c.kind = "map" -> {"get", "set", "put", "del"}
                 [] c.kind \in Views -> {"make", "get", "set", "front", "back"}
                 [] OTHER -> {"make", "assign", "grow", "ins", "resize", "era", "erar", "pop", "clear", "get", "set", "front", "back"})
  /\ e.op \in {"pop", "front", "back"} => Len(s) > 0
  /\ (e.op = "set" => c.kind # "cmv")
  /\ c.kind = "sv" => /\ e.op = "ins" => e.p <= Len(s)
                      /\ e.op = "era" => e.p < Len(s)
                      /\ e.op = "erar" => e.p <= e.n /\ e.n <= Len(s)
  /\ c.kind = "sm" => /\ (e.op = "ins" /\ e.p > Len(s)) => Count(e) > 0
                      /\ e.op = "erar" => ((e.p = e.n) => e.n <= Len(s))
  /\ c.kind # "sv" => e.n # Huge
  /\ Report(c, Misuse(c, e, s)) = "ub" => e.op = "get" /\ c.kind # "map" /\ e.p # Huge /\ e.p < (IF c.kind = "sv" THEN c.cap ELSE 8)
=============================================================================
