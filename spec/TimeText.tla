------------------------------- MODULE TimeText -------------------------------
(* Formatting of broken-down time as text, in the C locale. Text is a sequence of character codes; a pattern is a sequence of
   characters (their codes) and conversions (their letters' codes, negated). *)
EXTENDS Calendar, SequencesExt
DayNames == <<<<83, 117, 110, 100, 97, 121>>,
  <<77, 111, 110, 100, 97, 121>>,
  <<84, 117, 101, 115, 100, 97, 121>>,
  <<87, 101, 100, 110, 101, 115, 100, 97, 121>>,
  <<84, 104, 117, 114, 115, 100, 97, 121>>,
  <<70, 114, 105, 100, 97, 121>>,
  <<83, 97, 116, 117, 114, 100, 97, 121>>>>
MonthNames == <<<<74, 97, 110, 117, 97, 114, 121>>,
  <<70, 101, 98, 114, 117, 97, 114, 121>>,
  <<77, 97, 114, 99, 104>>,
  <<65, 112, 114, 105, 108>>,
  <<77, 97, 121>>,
  <<74, 117, 110, 101>>,
  <<74, 117, 108, 121>>,
  <<65, 117, 103, 117, 115, 116>>,
  <<83, 101, 112, 116, 101, 109, 98, 101, 114>>,
  <<79, 99, 116, 111, 98, 101, 114>>,
  <<78, 111, 118, 101, 109, 98, 101, 114>>,
  <<68, 101, 99, 101, 109, 98, 101, 114>>>>
RECURSIVE Digits(_, _, _)
Digits(n, w, p) == IF w = 0 /\ n = 0 THEN <<>> ELSE IF n = 0 THEN Digits(0, w - 1, p) \o <<p>> ELSE Digits(n \div 10, IF w = 0 THEN 0 ELSE w - 1, p) \o <<48 + (n % 10)>>
Dec(n, w) == Digits(n, w, 48)
Num(n) == IF n = 0 THEN <<48>> ELSE Dec(n, 0)
PadSp(n) == IF n < 10 THEN <<32, 48 + n>> ELSE Dec(n, 2)
Year(f) == f.year + 1900                     \* texts are made of years of four digits
H12(f) == IF f.hour % 12 = 0 THEN 12 ELSE f.hour % 12
Monday0(f) == (f.wday + 6) % 7
\* ISO 8601 week: a week belongs to the year its Thursday is in
IsoWeeks(y, jan1) == IF jan1 = 4 \/ (jan1 = 3 /\ Leap(y % 400)) THEN 53 ELSE 52         \* jan1: weekday of 1 January
Iso(f) == LET jan1 == (f.wday + 371 - f.yday) % 7
              w0 == (f.yday + 10 - Monday0(f)) \div 7
              prevJan1 == (jan1 + 7 - (YearLen((Year(f) - 1) % 400) % 7)) % 7
          IN IF w0 < 1 THEN <<Year(f) - 1, IsoWeeks(Year(f) - 1, prevJan1)>>
             ELSE IF w0 > IsoWeeks(Year(f), jan1) THEN <<Year(f) + 1, 1>> ELSE <<Year(f), w0>>
C(ch) == <<ch>>
RECURSIVE Conv(_, _)
Conv(k, f) ==
  CASE k = 37 -> C(37)                                                     \* %%
    [] k = 89 -> Num(Year(f)) [] k = 121 -> Dec(Year(f) % 100, 2) [] k = 67 -> Dec(Year(f) \div 100, 2)          \* Y y C
    [] k = 109 -> Dec(f.mon + 1, 2) [] k = 100 -> Dec(f.mday, 2) [] k = 101 -> PadSp(f.mday) [] k = 106 -> Dec(f.yday + 1, 3)      \* m d e j
    [] k = 72 -> Dec(f.hour, 2) [] k = 73 -> Dec(H12(f), 2) [] k = 77 -> Dec(f.min, 2) [] k = 83 -> Dec(f.sec, 2)                 \* H I M S
    [] k = 112 -> (IF f.hour < 12 THEN <<65, 77>> ELSE <<80, 77>>)         \* p
    [] k = 97 -> SubSeq(DayNames[f.wday + 1], 1, 3) [] k = 65 -> DayNames[f.wday + 1]
    [] k \in {98, 104} -> SubSeq(MonthNames[f.mon + 1], 1, 3) [] k = 66 -> MonthNames[f.mon + 1]
    [] k = 117 -> Num(Monday0(f) + 1) [] k = 119 -> Num(f.wday)              \* u w
    [] k = 85 -> Dec((f.yday + 7 - f.wday) \div 7, 2) [] k = 87 -> Dec((f.yday + 7 - Monday0(f)) \div 7, 2)         \* U W
    [] k = 71 -> Num(Iso(f)[1]) [] k = 103 -> Dec(Iso(f)[1] % 100, 2) [] k = 86 -> Dec(Iso(f)[2], 2)                \* G g V
    [] k = 110 -> C(10) [] k = 116 -> C(9)
    [] k \in {68, 120} -> Conv(109, f) \o C(47) \o Conv(100, f) \o C(47) \o Conv(121, f)                             \* D x
    [] k = 70 -> Conv(89, f) \o C(45) \o Conv(109, f) \o C(45) \o Conv(100, f)                                       \* F
    [] k = 82 -> Conv(72, f) \o C(58) \o Conv(77, f)                                                                \* R
    [] k \in {84, 88} -> Conv(82, f) \o C(58) \o Conv(83, f)                                                         \* T X
    [] k = 114 -> Conv(73, f) \o C(58) \o Conv(77, f) \o C(58) \o Conv(83, f) \o C(32) \o Conv(112, f)                \* r
    [] k = 99 -> Conv(97, f) \o C(32) \o Conv(98, f) \o C(32) \o Conv(101, f) \o C(32) \o Conv(84, f) \o C(32) \o Conv(89, f)      \* c
Text(pat, f) == FlattenSeq([i \in 1..Len(pat) |-> IF pat[i] >= 0 THEN C(pat[i]) ELSE Conv(-pat[i], f)])
=============================================================================
