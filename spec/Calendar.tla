------------------------------- MODULE Calendar -------------------------------
(* The proleptic Gregorian calendar, and seconds since 1970 as broken-down time.
   A year is era * 400 + y with y in 0..399 and era 0 beginning with the year 2000. *)
EXTENDS BigInt
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y = 0)
MonthLen(y, m) == CASE m = 1 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {3, 5, 8, 10} -> 30 [] OTHER -> 31          \* m in 0..11
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
\* closed forms (CalendarMC checks them against counting the days one by one)
YearStart(y) == 365 * y + ((y + 3) \div 4) - ((y + 99) \div 100) + ((y + 399) \div 400)
MonthStart(y, m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m + 1] + (IF m > 1 /\ Leap(y) THEN 1 ELSE 0)
EraDays == 146097
Doe(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1            \* day of the era, d in 1..31
FromDoe(n) == LET y == CHOOSE y \in (n \div 366)..(n \div 365) : YearStart(y) <= n /\ n < YearStart(y + 1)
                  k == n - YearStart(y)
                  m == CHOOSE m \in 0..11 : MonthStart(y, m) <= k /\ k < MonthStart(y, m) + MonthLen(y, m)
              IN [y |-> y, m |-> m, d |-> k - MonthStart(y, m) + 1, yd |-> k, wd |-> (n + 6) % 7]       \* 1 Jan 2000 was a Saturday, and an era is whole weeks

TmYear(e, y) == IF e >= 0 THEN e * 400 + (100 + y) ELSE (e + 1) * 400 + (y - 300)          \* so that no year of 32 bits overflows TLC's integers
\* broken-down time of the second t (a big integer)
Civil(t) == LET D == AddI(DivF(t, 86400), -10957)  sod == Mod(t, 86400)         \* 10957 days from 1970 to 2000
                c == FromDoe(Mod(D, EraDays))
            IN [sec |-> sod % 60, min |-> (sod \div 60) % 60, hour |-> sod \div 3600, mday |-> c.d, mon |-> c.m,
                year |-> TmYear(Big2Int(DivF(D, EraDays)), c.y), wday |-> c.wd, yday |-> c.yd]
\* the second denoted by any fields, also out of their ranges
Secs(f) == LET q == f.year \div 400  y == (f.year % 400) + 300 + (f.mon \div 12)         \* 1900 is 300 years into era -1
               era == q - 1 + (y \div 400)
               D == AddI(AddI(Mul(Int2Big(era), EraDays), Doe(y % 400, f.mon % 12, 1) + 10957), -1)
           IN Add(Mul(Add(D, Int2Big(f.mday)), 86400), Add(Mul(Int2Big(f.hour), 3600), Add(Mul(Int2Big(f.min), 60), Int2Big(f.sec))))

\* local time: a zone's offset from UTC in seconds, and whether it has daylight saving by the rule M3.2.0/2,M11.1.0/2
NthSunday(y, m, n) == LET w == FromDoe(Doe(y, m, 1)).wd IN 1 + ((7 - w) % 7) + 7 * (n - 1)
YearOfEra(tmyear) == ((tmyear % 400) + 300) % 400
SummerAt(c) == LET y == YearOfEra(c.year)  at(m, d, h) == <<m, d, h>>  le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
                   x == at(c.mon, c.mday, c.hour)
               IN le(at(2, NthSunday(y, 2, 2), 2), x) /\ ~le(at(10, NthSunday(y, 10, 1), 1), x)      \* c in standard time
Local(z, t) == LET c == Civil(AddI(t, z.off)) IN
               IF z.dst /\ SummerAt(c) THEN [tm |-> Civil(AddI(t, z.off + 3600)), dst |-> 1] ELSE [tm |-> c, dst |-> 0]
\* the seconds which fields of local time may denote, dst being 0, 1 or unknown (negative)
FromLocal(z, f, dst) == {t \in {AddI(Secs(f), -z.off), AddI(Secs(f), -z.off - 3600)} :
                          LET l == Local(z, t) IN Secs(l.tm) = Secs(f) /\ (dst < 0 \/ (l.dst = 1) = (dst > 0))}
=============================================================================
