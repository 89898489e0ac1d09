------------------------------- MODULE TimeTrace -------------------------------
(* What was recorded of time_t: numbers of 64 bits as big integers, broken-down times as records of fields. *)
EXTENDS TimeText, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, t        \* t: the time value which the history works on
vars == <<tid, l, t>>
ev == Traces[tid].ev
zone == Traces[tid].cfg.zone
Init == tid \in 1..Len(Traces) /\ l = 1 /\ t = Zero
Same(f, g) == \A k \in DOMAIN f : f[k] = g[k]
\* a duration of k units of num/den seconds each (products of small factors) in whole seconds
RECURSIVE Times(_, _, _), Over(_, _, _)
Times(x, fs, i) == IF i > Len(fs) THEN x ELSE Times(Mul(x, fs[i]), fs, i + 1)
Over(x, fs, i) == IF i > Len(fs) THEN x ELSE Over(DivT(x, fs[i]), fs, i + 1)
Dur(E) == Over(Times(E.k, E.num, 1), E.den, 1)
Step(E) ==
  CASE E.op = "set" -> t' = E.v /\ E.sec = E.v /\ E.std = E.v
    [] E.op = "dflt" -> t' = Zero /\ E.sec = Zero /\ E.std = Zero
    [] E.op = "now" -> t' = E.v /\ Cmp(E.lo, E.v) <= 0 /\ Cmp(E.v, E.hi) <= 0
    [] E.op = "gm" -> E.t = t /\ Same(Civil(t), E.tm) /\ E.tm.isdst = 0 /\ UNCHANGED t
    [] E.op = "loc" -> LET z == Local(zone, t) IN E.t = t /\ Same(z.tm, E.tm) /\ E.tm.isdst = z.dst /\ UNCHANGED t
    [] E.op = "mk" -> t' = Secs(E.f) /\ E.v = t' /\ Same(Civil(t'), E.tm)
    [] E.op = "mkl" -> t' \in FromLocal(zone, E.f, E.f.isdst) /\ E.v = t' /\ LET z == Local(zone, t') IN Same(z.tm, E.tm) /\ E.tm.isdst = z.dst
    [] E.op \in {"add", "add="} -> t' = Add(t, Dur(E)) /\ E.v = t' /\ E.self /\ E.old = t
    [] E.op \in {"sub", "sub="} -> t' = Sub(t, Dur(E)) /\ E.v = t' /\ E.self /\ E.old = t
    [] E.op = "cmp" -> LET c == Cmp(t, E.b) IN E.d = Sub(t, E.b) /\ E.r = <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>> /\ UNCHANGED t
    [] E.op = "fmt" -> E.text = Text(E.pat, E.f) /\ UNCHANGED t
    \* what several threads got at once, each for a time of its own
    [] E.op = "mt" -> /\ \A i \in 1..Len(E.rs) : LET r == E.rs[i] IN
                            CASE r.w = "gm" -> Same(Civil(r.t), r.tm) /\ r.tm.isdst = 0
                              [] r.w = "loc" -> LET z == Local(zone, r.t) IN Same(z.tm, r.tm) /\ r.tm.isdst = z.dst
                              [] r.w = "mk" -> Secs(r.f) = r.t
                      /\ UNCHANGED t
    [] OTHER -> FALSE
Next == \/ l <= Len(ev) /\ ev[l].op # "Crash" /\ Step(ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(ev) /\ UNCHANGED vars
=============================================================================
