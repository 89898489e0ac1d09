------------------------------ MODULE ViewsTrace ------------------------------
EXTENDS Views, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, mem, v, at      \* at: where each view begins, -1 unspecified, -2 nowhere (null)
vars == <<tid, l, mem, v, at>>
c == Traces[tid].cfg
ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ mem = Traces[tid].cfg.init /\ v = [k \in 1..4 |-> <<>>] /\ at = [k \in 1..4 |-> -1]
At(m, o) == m[o + 1]
Tok(m, o) == CASE c.kind = "pref" -> o + (IF At(m, o) % 2 = 1 THEN 1 ELSE 2)
               [] c.kind = "pval" -> 1000 + At(m, o + 1)
               [] OTHER -> o
Toks(m, s) == [k \in 1..Len(s) |-> Tok(m, s[k])]
B(x) == IF x THEN 1 ELSE 0
Mod(x, n) == x % n
(* the elements a construction names *)
Made(E) ==
  LET z == c.z  how == E.a  o == E.o IN
  CASE c.kind = "stride" ->
         (CASE how \in {0, 1, 2} -> Grid(o, E.sd, E.n)
            [] how = 3 -> LET off == E.sd % 3  st == 1 + (E.sd % 4) IN Grid(o + z * off, z * st, (E.n - off + st - 1) \div st)
            [] how = 4 -> Grid(o + 2 * z + 2, 3 * z + 2, E.n)
            [] how = 5 -> Grid(o + z, 3 * z + 2, E.n)
            [] how = 6 -> Grid(o, z, E.n)
            [] how = 7 -> LET off == E.sd % 3 IN Grid(o + z * off, z, E.n - off)
            [] OTHER -> <<>>)
    [] how = 9 \/ (c.kind = "mem" /\ how \in {5, 7}) -> <<>>
    [] (c.kind = "span" /\ how \in {6, 7}) \/ (c.kind = "mem" /\ how = 6 /\ E.d >= 2) -> Grid(o, z, 4)
    [] OTHER -> Grid(o, z, E.n)
Default(E) == E.op = "mk" /\ E.a = 9
NewView(E) ==
  LET own == v[E.d + 1]  from == v[E.s + 1] IN
  CASE E.op = "mk" -> Made(E)
    [] E.op = "conv" -> v[E.s + 1]
    [] E.op = "rmpre" -> DropFirst(own, E.k)
    [] E.op = "rmsuf" -> DropLast(own, E.k)
    [] E.op = "resize" /\ E.k >= 0 -> First(own, E.k)
    [] E.op = "sub" -> Slice(from, E.a, IF E.b = -99 THEN -1 ELSE E.b)
    [] E.op = "first" -> First(from, E.a)
    [] E.op = "last" -> Last(from, E.a)
    [] E.op \in {"copy", "move"} -> from
    [] OTHER -> own
(* Where the view begins, also if it is empty: at the offset it was cut at, as long as that is within what it was cut from. *)
Step1(s) == IF c.kind \in {"span", "mem"} THEN c.z ELSE IF Len(s) > 1 THEN s[2] - s[1] ELSE -1
Cut(k, off) ==
  LET s == v[k] IN
  IF off = 0 THEN at[k]
  ELSE IF off \in 1..(Len(s) - 1) THEN s[off + 1]
  ELSE IF off = Len(s) /\ Step1(s) > 0 THEN s[Len(s)] + Step1(s) ELSE -1
NewAt(E) ==
  LET d == E.d + 1  f == E.s + 1  w == NewView(E)
      a == CASE E.op = "mk" -> IF Default(E) \/ (c.kind = "mem" /\ E.a = 5) THEN -2 ELSE IF c.kind = "mem" /\ E.a = 7 THEN E.o ELSE IF Len(w) = 0 /\ E.a \in {0, 1, 2} /\ c.kind # "mem" THEN E.o ELSE -1
             [] E.op \in {"conv", "copy", "move"} -> at[f]
             [] E.op = "rmpre" -> Cut(d, E.k)
             [] E.op \in {"rmsuf"} -> at[d]
             [] E.op = "sub" -> Cut(f, E.a)
             [] E.op = "first" -> at[f]
             [] E.op = "last" -> Cut(f, IF E.a < 0 \/ E.a > Len(v[f]) THEN 0 ELSE Len(v[f]) - E.a)
             [] E.op = "resize" -> IF E.k >= 0 THEN at[d] ELSE -1
             [] OTHER -> at[d] IN
  IF Len(w) > 0 THEN w[1] ELSE a
NewMem(E) ==
  CASE E.op = "set" -> [q \in 1..c.mem |-> LET ks == {k \in 0..5 : (E.p0 + 3 * k) % c.mem = q - 1} IN
                                           IF ks = {} THEN mem[q] ELSE (E.p1 + (CHOOSE k \in ks : TRUE)) % 256]
    [] E.op = "write" /\ E.i >= 0 ->
         LET o == v[E.d + 1][E.i + 1] IN
         CASE c.kind = "pval" -> mem
           [] c.kind = "pref" -> [mem EXCEPT ![Tok(mem, o) + 1] = E.x]
           [] OTHER -> [q \in 1..c.mem |-> IF q - 1 \in o..(o + c.z - 1) THEN (E.x + q - 1 - o) % 256 ELSE mem[q]]
    [] E.op = "wbyte" /\ E.i >= 0 -> [mem EXCEPT ![v[E.d + 1][1] + E.i + 1] = E.x]
    [] OTHER -> mem
Relation(q, t, i, j, k) == \* t: what the positions denote
  LET n == Len(t) IN
  q = <<j - i, B(i = j), B(i # j), B(i < j), B(i > j), B(i <= j), B(i >= j), k, n - k, IF i < n THEN t[i + 1] ELSE -1, IF k < n THEN t[k + 1] ELSE -1, i - j>>
Shown(E, s, m, a) == \* everything the view at hand shows
  LET t == Toks(m, s)  n == Len(s) IN
  /\ E.size = n /\ E.empty = (n = 0) /\ E.rf = n
  /\ E.fw = t /\ E.cf = t /\ E.ix = t /\ E.rv = Rev(t) /\ E.cr = Rev(t)
  /\ E.fr = (IF n > 0 THEN t[1] ELSE -1) /\ E.bk = (IF n > 0 THEN t[n] ELSE -1)
  /\ (n > 0 => E.yes /\ E.data = s[1])
  /\ (a >= 0 => E.yes /\ E.data = a) /\ (a = -2 => ~E.yes /\ E.data = -1)
  /\ (Default(E) => ~E.yes)
  /\ (c.kind = "span" => E.nb = n * c.z /\ E.bytes = (IF n = 0 THEN <<>> ELSE Grid(s[1], 1, n * c.z)) /\ E.wbytes = E.bytes)
  /\ (n > 1 /\ c.kind \in {"stride", "pref", "pval"} => E.st = s[2] - s[1])
Step(E) ==
  /\ E.op # "Crash" /\ E.ex = "" /\ E.guard
  /\ v' = [v EXCEPT ![E.d + 1] = NewView(E)]
  /\ at' = [at EXCEPT ![E.d + 1] = NewAt(E)]
  /\ mem' = NewMem(E)
  /\ TRUE = ( /\ E.mem = mem'
              /\ \A k \in 1..4 : E.all[k] = Toks(mem', v'[k])
              /\ Shown(E, v'[E.d + 1], mem', at'[E.d + 1])
              /\ (E.op = "iter" =>
                    LET s == v[E.d + 1]  t == Toks(mem, s) IN
                    /\ Relation(E.q1, t, E.i, E.j, E.k) /\ Relation(E.q2, t, E.i, E.j, E.k)
                    /\ Relation(E.q3, Rev(t), E.i, E.j, E.k) /\ Relation(E.q4, Rev(t), E.i, E.j, E.k)
                    /\ (c.kind \in {"span", "mem", "stride"} /\ E.i < Len(s) => E.arrow = s[E.i + 1])))
Next == \/ l <= Len(ev) /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
