-------------------------------- MODULE Types --------------------------------
(* What the library's types let a program do without running it: which of them    *)
(* copy and move, what turns into a view of what, what elements may be written     *)
(* through, and what doesn't happen without being asked for.                       *)
(* A holder is [k, e, w, t]: kind, element type, whether elements may be written   *)
(* through it, whether it is a temporary.                                          *)
EXTENDS Integers, Sequences
Owners == {"vector", "array", "carr", "pod", "small", "static"}
Spans == {"span", "stride", "mview", "cview"}
\* what no conversion may do: take the elements for others, make elements others may only read
\* writable, or view what a temporary owns (what is const may be viewed until the full expression ends)
Forbidden(f, t) == \/ f.e # t.e
                   \/ t.w /\ ~f.w
                   \/ f.k \in Owners \ {"carr"} /\ f.t /\ f.w
\* and those there are
Offered(f, t) == /\ ~Forbidden(f, t)
                 /\ \/ t.k = "span" /\ (f.k = "span" \/ (f.k \in Owners /\ ~f.t))
                    \/ t.k = "stride" /\ f.k = "stride"
                    \/ t.k \in {"mview", "cview"} /\ f.k = "mview"
                    \/ t.k = "cview" /\ f.k = "cview"
Made(f) == IF f.t THEN [k |-> "none", e |-> 0, w |-> FALSE, t |-> FALSE] ELSE [k |-> "span", e |-> f.e, w |-> f.w, t |-> FALSE]
\* elements reached through an object x of kind k, elements ew writable, x const or not
Writable(k, ew, const) == CASE k = "owner" -> ew /\ ~const       \* the object's constness is its elements'
                            [] k = "span" -> ew                  \* a span is a reference: its own constness says nothing of elements
                            [] OTHER -> FALSE                    \* keys, and what const iterators give
\* special members: ec: elements copy; en, ea: their move construction and assignment don't throw
Members(m) ==
  /\ m.nd
  /\ CASE m.k = "value" -> (m.ec => m.cc /\ m.ca) /\ m.mc /\ m.ma /\ (m.en /\ m.ea => m.nc /\ m.na)
       [] m.k = "inline" -> (m.ec => m.cc /\ m.ca) /\ m.mc /\ m.ma /\ (m.nc = m.en) /\ (m.na => m.en) /\ (m.en /\ m.ea => m.na)    \* a move of elements in place throws what theirs does, and says so; assigned to none, they are constructed
       [] m.k = "view" -> m.cc /\ m.ca /\ m.mc /\ m.ma /\ m.nc /\ m.na
       [] m.k = "unique" -> ~m.cc /\ ~m.ca /\ m.mc /\ (m.en => m.nc)
       [] m.k = "guard" -> ~m.cc /\ ~m.ca /\ m.mc
       [] m.k = "pinned" -> ~m.cc /\ ~m.ca /\ ~m.mc /\ ~m.ma
       [] OTHER -> FALSE
\* a vector that grows copies what is there only if moving it might throw
GrowthCopies(nothrow, copies) == ~nothrow /\ copies
=============================================================================
