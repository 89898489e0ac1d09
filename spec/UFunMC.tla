-------------------------------- MODULE UFunMC --------------------------------
(* Unique functions in the steps of the code: a copyable function object over a     *)
(* wrapper of the callable on the heap; it is moved by exchanging pointers, and      *)
(* assigned by making another and exchanging. The wrapper is never copied, every     *)
(* callable is destroyed once, when nothing holds it.                                *)
EXTENDS OneShot, TLC, Json
CONSTANT N        \* holders in use
VARIABLES u, heap, y, op, e
vars == <<u, heap, y, op, e>>
\* u[k]: a block of the heap or 0;   heap[b]: Nothing or the callable there
View == <<[k \in 1..3 |-> IF u[k] = 0 THEN <<-1, 0, 0>> ELSE <<heap[u[k]].q, heap[u[k]].v, heap[u[k]].n>>], y>>
AbsOf(w, h) == [k \in 1..3 |-> IF w[k] = 0 THEN Nothing ELSE [h[w[k]] EXCEPT !.id = w[k]]]
Abs == AbsOf(u, heap)
Init == u = <<0, 0, 0>> /\ heap = [b \in 1..5 |-> Nothing] /\ y = 0 /\ op = <<"init">> /\ e = [op |-> "init"]
Free == CHOOSE b \in 1..5 : heap[b].q = -1 /\ \A c \in 1..(b - 1) : heap[c].q # -1
Drop(h, b) == IF b = 0 THEN h ELSE IF Assert(h[b].q # -1, "destroyed twice") THEN [h EXCEPT ![b] = Nothing] ELSE h
Give(k, q, v, asg) == \* a temporary function is made, exchanged with the target, and destroyed; construction destroys first
  LET made == q \notin GivesNothing
      h0 == IF asg THEN heap ELSE Drop(heap, u[k])
      b == CHOOSE b \in 1..5 : h0[b].q = -1 /\ \A c \in 1..(b - 1) : h0[c].q # -1
      h1 == IF made THEN [h0 EXCEPT ![b] = [q |-> q, id |-> 0, v |-> v, n |-> 0]] ELSE h0
  IN u' = [u EXCEPT ![k] = IF made THEN b ELSE 0] /\ heap' = (IF asg THEN Drop(h1, u[k]) ELSE h1) /\ UNCHANGED y
     /\ op' = <<IF asg THEN "a" ELSE "c", k - 1, q, v>> /\ e' = [op |-> "give", k |-> k, q |-> q, v |-> v]
Reset(k, nm) == u' = [u EXCEPT ![k] = 0] /\ heap' = Drop(heap, u[k]) /\ UNCHANGED y /\ op' = <<nm, k - 1>> /\ e' = [op |-> "reset", k |-> k]
MoveAsg(k, j) == \* function(std::move(x)).swap(*this)
  LET t == u[j] w1 == [u EXCEPT ![j] = 0] old == w1[k] w2 == [w1 EXCEPT ![k] = t]
  IN u' = w2 /\ heap' = Drop(heap, old) /\ UNCHANGED y /\ op' = <<"a_move", k - 1, j - 1>> /\ e' = [op |-> "move", k |-> k, j |-> j]
MoveCtor(k, j) == k # j /\ u' = [u EXCEPT ![k] = u[j], ![j] = 0] /\ heap' = Drop(heap, u[k]) /\ UNCHANGED y /\ op' = <<"c_move", k - 1, j - 1>> /\ e' = [op |-> "move", k |-> k, j |-> j]
Swap(k, j) == u' = [u EXCEPT ![k] = u[j], ![j] = u[k]] /\ UNCHANGED <<heap, y>> /\ op' = <<"swap", k - 1, j - 1>> /\ e' = [op |-> "swap", k |-> k, j |-> j]
Call(k, x) ==
  /\ TRUE = (u[k] = 0 \/ (heap[u[k]].n < 2 /\ (heap[u[k]].q # 14 \/ y < 2)))
  /\ op' = <<"call", k - 1, x, k % 2>>
  /\ IF u[k] = 0 THEN e' = [op |-> "call", k |-> k, x |-> x, ex |-> "badcall", ret |-> 0] /\ UNCHANGED <<heap, u, y>>
     ELSE /\ heap' = [heap EXCEPT ![u[k]].n = @ + 1] /\ y' = (IF heap[u[k]].q = 14 THEN y + 1 ELSE y) /\ UNCHANGED u
          /\ e' = [op |-> "call", k |-> k, x |-> x, ex |-> IF x < 0 THEN "boom" ELSE "",
                   ret |-> IF x < 0 THEN 0 ELSE IF heap[u[k]].q = 6 THEN x ELSE IF heap[u[k]].q = 14 THEN 80000 + (y' * 100) + x ELSE (heap[u[k]].v * 10000) + (heap'[u[k]].n * 100) + x]
Next == \E k \in 1..N :
   \/ \E q \in {0, 2, 6, 7, 13, 14} : Give(k, q, 3, TRUE) \/ Give(k, q, 3, FALSE)
   \/ \E nm \in {"c_def", "c_null", "a_null"} : Reset(k, nm)
   \/ \E j \in 1..N : MoveAsg(k, j) \/ MoveCtor(k, j) \/ (j > k /\ Swap(k, j))
   \/ \E x \in {-1, 4} : Call(k, x)
Spec == Init /\ [][Next]_vars
Inv == /\ \A b \in 1..5 : (heap[b].q # -1) = (\E k \in 1..3 : u[k] = b)
       /\ \A j, k \in 1..3 : j # k /\ u[j] # 0 => u[j] # u[k]
Same(a, b) == a.q = b.q /\ a.v = b.v /\ a.n = b.n
Obeys == [][LET A == Abs B == AbsOf(u', heap') others(S) == \A k \in 1..3 : k \notin S => Same(A[k], B[k]) IN
            CASE e'.op = "give" -> others({e'.k}) /\ Same(B[e'.k], IF e'.q \in GivesNothing THEN Nothing ELSE [q |-> e'.q, v |-> e'.v, n |-> 0])
              [] e'.op = "reset" -> others({e'.k}) /\ B[e'.k].q = -1
              [] e'.op = "move" -> others({e'.k, e'.j}) /\ Same(B[e'.k], A[e'.j]) /\ (e'.k # e'.j => B[e'.j].q = -1)
              [] e'.op = "swap" -> others({e'.k, e'.j}) /\ Same(B[e'.k], A[e'.j]) /\ Same(B[e'.j], A[e'.k])
              [] e'.op = "call" -> others({e'.k}) /\ LET r == Called(A[e'.k], e'.x, y) IN r.ex = e'.ex /\ r.ret = e'.ret
              [] OTHER -> TRUE]_vars
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
=============================================================================
