------------------------------- MODULE TypesMC -------------------------------
(* Programs that pass holders on through any conversion that isn't forbidden: who  *)
(* ends up with the elements can do no more to them than the first could, and sees *)
(* no others; those of a temporary that can be written are never seen once it is    *)
(* gone.  A vector of N of them, growing: copies only where it must.                *)
EXTENDS Types, TLC
CONSTANTS N
VARIABLES own, cur, hops, size, cap, copied, nothrow, copies
vars == <<own, cur, hops, size, cap, copied, nothrow, copies>>
B == {TRUE, FALSE}
H(ks) == [k : ks, e : 0..1, w : B, t : B]
Init == /\ own \in {h \in H(Owners) : h.k # "carr" \/ ~h.t} /\ cur = own /\ hops = 0
        /\ size = 0 /\ cap = 0 /\ copied = 0 /\ nothrow \in B /\ copies \in B
Pass == /\ hops < 3
        /\ \E h \in H(Spans) : /\ (h.k = "cview") => ~h.w
                               /\ (h.k = "mview") => h.w
                               /\ ~Forbidden(cur, h)
                               /\ cur' = h
        /\ hops' = hops + 1 /\ UNCHANGED <<own, size, cap, copied, nothrow, copies>>
Push == /\ size < N /\ size' = size + 1
        /\ IF size < cap THEN UNCHANGED <<cap, copied>>
           ELSE cap' = 2 * cap + 1 /\ copied' = copied + (IF GrowthCopies(nothrow, copies) THEN size ELSE 0)
        /\ UNCHANGED <<own, cur, hops, nothrow, copies>>
Next == Pass \/ Push
Spec == Init /\ [][Next]_vars
Inv == /\ cur.e = own.e /\ (cur.w => own.w)
       /\ (own.t /\ own.w) => hops = 0
       /\ \A h \in H(Spans) : Offered(cur, h) => ~Forbidden(cur, h)
       \* what is offered in two steps is not forbidden in one
       /\ \A g, h \in H(Spans) : (Offered(cur, g) /\ Offered(g, h)) => ~Forbidden(cur, h)
       /\ (Made(cur).k = "span" /\ cur.k \in Owners) => Offered(cur, Made(cur))
       /\ (nothrow \/ ~copies) => copied = 0
       /\ (Writable("owner", cur.w, TRUE) = FALSE) /\ (Writable("span", cur.w, TRUE) = cur.w)
=============================================================================
