------------------------------- MODULE ThrowExMC -------------------------------
(* Stream-built exceptions among other exceptions: they are used in try blocks, in handlers and in destructors which run while another
   exception is in flight, nested in each other to any depth. A use in a block which catches what it throws never ends the program. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxDepth, CountsAtStart        \* whether the helper compares with the exceptions in flight when it was made
VARIABLES stack,      \* what is being executed: "try" (a block with handlers), "dtor" (a destructor during unwinding), "handler"
          flying,     \* exceptions in flight, not yet caught: std::uncaught_exceptions()
          ex,         \* the helper's object: <<>> or <<its record of flying, number of values streamed>>
          state,      \* "run" or "unwind" or "dead"
          caught      \* the message (number of values) of the exception last caught, -1 before the first
vars == <<stack, flying, ex, state, caught>>
Init == stack = <<>> /\ flying = 0 /\ ex = <<>> /\ state = "run" /\ caught = -1
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Try == state = "run" /\ ex = <<>> /\ Len(stack) < MaxDepth /\ stack' = Append(stack, "try") /\ UNCHANGED <<flying, ex, state, caught>>
\* an unrelated exception leaves a scope with a local whose destructor uses the helper
Other == state = "run" /\ ex = <<>> /\ Len(stack) > 0 /\ Top = "try" /\ Len(stack) < MaxDepth /\ flying' = flying + 1 /\ stack' = Append(stack, "dtor") /\ UNCHANGED <<ex, state, caught>>
Make == state = "run" /\ ex = <<>> /\ Len(stack) > 0 /\ Top = "try" /\ ex' = <<flying, 0>> /\ UNCHANGED <<stack, flying, state, caught>>
Stream == state = "run" /\ ex # <<>> /\ ex[2] < 2 /\ ex' = <<ex[1], ex[2] + 1>> /\ UNCHANGED <<stack, flying, state, caught>>
\* the end of the full expression
Throw == /\ state = "run" /\ ex # <<>>
         /\ IF flying > (IF CountsAtStart THEN ex[1] ELSE 0) THEN state' = "dead" /\ UNCHANGED <<flying, stack, ex, caught>>
            ELSE /\ flying' = flying + 1 /\ state' = "unwind" /\ UNCHANGED <<stack, ex, caught>>
\* the innermost block catches it
Catch == state = "unwind" /\ Top = "try" /\ flying' = flying - 1 /\ caught' = ex[2] /\ ex' = <<>> /\ state' = "run" /\ stack' = Append(Pop, "handler")
\* normal ends: of a handler or of a block; of a destructor, after which the unrelated exception is caught
End == state = "run" /\ ex = <<>> /\ Len(stack) > 0 /\
       IF Top = "dtor" THEN stack' = Append(SubSeq(stack, 1, Len(stack) - 2), "handler") /\ flying' = flying - 1 /\ UNCHANGED <<ex, state, caught>>
       ELSE stack' = Pop /\ UNCHANGED <<flying, ex, state, caught>>
\* a nested use needs a block of its own; within a handler or a destructor one is opened
Next == Try \/ Other \/ Make \/ Stream \/ Throw \/ Catch \/ End
Spec == Init /\ [][Next]_vars
Dtors == Len(SelectSeq(stack, LAMBDA s : s = "dtor"))
Inv == state # "dead" /\ flying = Dtors + (IF state = "unwind" THEN 1 ELSE 0)
\* exactly one exception, with everything that was streamed
Obeys == [][/\ caught' # caught => state = "unwind" /\ caught' = ex[2]
            /\ flying' > flying => flying' = flying + 1]_vars
=============================================================================
