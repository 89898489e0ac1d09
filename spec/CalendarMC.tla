------------------------------ MODULE CalendarMC ------------------------------
(* Every day of a 400-year cycle, one after another: the closed forms count them, in both directions. *)
EXTENDS Calendar, TLC
VARIABLES y, m, d, n, w, k        \* the date, the day's number in the cycle, its weekday and its day of the year
vars == <<y, m, d, n, w, k>>
\* the cycle is entered at several years, so that it is walked in parallel; each walk ends in the state where the next one begins
CONSTANT Walk
Init == y \in {x \in 0..399 : x % Walk = 0} /\ m = 0 /\ d = 1 /\ n = YearStart(y) /\ w = (n + 6) % 7 /\ k = 0
Next == /\ n < EraDays - 1
        /\ n' = n + 1 /\ w' = (w + 1) % 7
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>> /\ k' = k + 1
           ELSE /\ d' = 1 /\ m' = (m + 1) % 12 /\ y' = (IF m = 11 THEN y + 1 ELSE y) /\ k' = (IF m = 11 THEN 0 ELSE k + 1)
Spec == Init /\ [][Next]_vars
Inv == /\ y \in 0..399 /\ Doe(y, m, d) = n /\ FromDoe(n) = [y |-> y, m |-> m, d |-> d, yd |-> k, wd |-> w]
       /\ (m = 11 /\ d = 31) => k + 1 = YearLen(y)
       /\ n = EraDays - 1 => y = 399 /\ m = 11 /\ d = 31 /\ (w + 1) % 7 = 6          \* the cycle closes, after whole weeks
\* seconds: some seconds of every day there and back, in this cycle and in far ones
T(e, s) == Add(Mul(AddI(Add(Mul(Int2Big(e), EraDays), Int2Big(n)), 10957), 86400), Int2Big(s))
Back == \A e \in {<<-5, 0, 3>>[1 + (n % 3)]} : \A s \in {(n * 7919) % 86400} :
          LET c == Civil(T(e, s)) IN /\ Secs(c) = T(e, s) /\ c.year = 400 * e + 100 + y /\ c.mon = m /\ c.mday = d /\ c.yday = k /\ c.wday = w
                                     /\ c.hour * 3600 + c.min * 60 + c.sec = s
\* carrying between the fields of a time changes nothing
Carry == n % 13 = 0 => LET c == Civil(T(0, 86399)) IN
          /\ Secs([c EXCEPT !.sec = @ + 60, !.min = @ - 1]) = Secs(c) /\ Secs([c EXCEPT !.min = @ - 6000, !.hour = @ + 100]) = Secs(c)
          /\ Secs([c EXCEPT !.hour = @ + 2400, !.mday = @ - 100]) = Secs(c) /\ Secs([c EXCEPT !.mon = @ - 36, !.year = @ + 3]) = Secs(c)
          /\ Secs([c EXCEPT !.mon = 0, !.mday = 1 + @ - 1 + k - (c.mday - 1)]) = Secs(c)          \* the day of the year as a day of January
=============================================================================
