------------------------------ MODULE BitsTrace ------------------------------
EXTENDS Bits, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
vars == <<tid, l, s>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = <<<<>>, <<>>>>

\* sequences of bits are recorded in chunks of 24
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608>>
Min(a, b) == IF a < b THEN a ELSE b
Decode(p, n) == [k \in 1..n |-> (p[((k - 1) \div 24) + 1] \div P2[((k - 1) % 24) + 1]) % 2]
Is(p, t) == Len(p) = (Len(t) + 23) \div 24 /\ Decode(p, Len(t)) = t
Rv(t) == [k \in 1..Len(t) |-> t[Len(t) + 1 - k]]

StateOK(S, t) ==
  LET n == Len(t)
      ws == (n + c.w - 1) \div c.w IN
  /\ S.n = n /\ Is(S.b, t)
  /\ S.all = AllOf(t) /\ S.any = AnyOf(t) /\ S.none = ~AnyOf(t)
  /\ S.em = (n = 0) /\ S.ws = ws /\ S.bf = ws /\ S.bs = (n + 7) \div 8
ObsOK(E, t) == Is(E.ix, t) /\ Is(E.pr, t) /\ Is(E.it, t) /\ Is(E.cit, t) /\ Is(E.rv, Rv(t)) /\ E.len = Len(t) /\ E.clen = Len(t)

Step(E) ==
  LET x == E.o
      y == 3 - E.o
      threw == E.ex # ""
      free == Unspecified(E) \/ E.op = "a_selfm"
      new == CASE E.op = "a_selfm" -> Decode(E.s[x].b, E.s[x].n)     \* self-move: valid, unspecified
               [] Unspecified(E) -> Put(s[x], E.f, Piece(Decode(E.s[x].b, Len(s[x])), E.f, E.t - E.f))
               [] threw -> RefusedOK(E, s[x])
               [] OTHER -> Effect(E, s[x], s[y])
      other == OtherAfter(E, s[y])
  IN /\ E.op # "Crash"
     /\ TRUE = (/\ StateOK(E.s[x], new) /\ StateOK(E.s[y], other)
                /\ E.r = (IF E.op = "test" THEN s[x][E.i + 1] ELSE -1)
                /\ threw => E.deny \/ Refuses(E, s[x], s[y], c.w, c.lim)
                /\ ~threw /\ Len(new) > Len(s[x]) => ~Refuses(E, s[x], s[y], c.w, c.lim)
                /\ E.op = "obs" => ObsOK(E, s[x]))
     /\ s' = [s EXCEPT ![x] = new, ![y] = other]
Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
