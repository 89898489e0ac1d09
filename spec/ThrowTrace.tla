------------------------------- MODULE ThrowTrace -------------------------------
(* Every recorded use of the helper: what was streamed, and what was caught. *)
EXTENDS StreamFmt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Users(ks) == SelectSeq(ks, LAMBDA k : k[1] = "user")
Step(E) == CASE E.op = "throw" ->
                 /\ E.caught = E.type                        \* the dynamic type of what was caught, "" if nothing was
                 /\ E.msg = Message(Fresh, E.toks, 1)
                 /\ E.made = 1                               \* exceptions of the type constructed from a message
                 /\ E.marked                                 \* the rest of the full expression had been evaluated
                 /\ E.reads = [i \in 1..Len(Users(E.toks)) |-> 1] /\ E.copies = 0
                 /\ E.flying = E.before                      \* exceptions in flight after it was caught
             [] E.op = "done" -> E.live = 0
             [] OTHER -> FALSE
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
