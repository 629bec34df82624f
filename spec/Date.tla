-------------------------------- MODULE Date --------------------------------
(***************************************************************************)
(* Instants in UTC, the notations in which they are written, and what the  *)
(* format specifiers make of them.  A machine walks the calendar day by    *)
(* day, carrying months, years, weekdays and week numbers; the closed      *)
(* formulas by which instants are formatted are checked against it.        *)
(*                                                                         *)
(* An instant is [n |-> days since 1970-01-01, s |-> seconds of the day].  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Par == ndJsonDeserialize(IOEnv.GEN)[1]
Years == Par.years      \* the years which are walked
Times == Par.times      \* <<hour, minute, second>>s, taken in turns
Offsets == Par.offsets  \* minutes east of UTC, taken in turns
Formats == Par.formats  \* sequences of items: [l |-> literal] or [f |-> specifier, pad |-> "" or a modifier]
Every == Par.every      \* each so many days are printed

-----------------------------------------------------------------------------
(* The machine *)

VARIABLES y, m, d,   \* the date
          wd,        \* its weekday: 0 is Monday
          yd,        \* the number of the day within its year, from 1
          n          \* days since 1970-01-01

vars == <<y, m, d, wd, yd, n>>

Leap(yy) == yy % 4 = 0 /\ (yy % 100 # 0 \/ yy % 400 = 0)
MonthLen(yy, mm) == CASE mm \in {4, 6, 9, 11} -> 30
                      [] mm = 2 -> IF Leap(yy) THEN 29 ELSE 28
                      [] OTHER -> 31

\* Days before a year, counted from year 1.
Before(yy) == LET k == yy - 1 IN 365 * k + (k \div 4) - (k \div 100) + (k \div 400)
NewYear(yy) == Before(yy) - Before(1970)

Init == /\ y \in {Years[i] : i \in 1..Len(Years)}
        /\ m = 1 /\ d = 1 /\ yd = 1
        /\ n = NewYear(y)
        /\ wd = (n + 3) % 7

Tomorrow ==
  /\ ~(m = 12 /\ d = 31)
  /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ m' = m ELSE d' = 1 /\ m' = m + 1
  /\ y' = y /\ wd' = (wd + 1) % 7 /\ yd' = yd + 1 /\ n' = n + 1

Spec == Init /\ [][Tomorrow]_vars

-----------------------------------------------------------------------------
(* Closed formulas *)

YearDay(yy, mm, dd) == dd + FoldLeft(LAMBDA a, k : a + MonthLen(yy, k), 0, [k \in 1..(mm - 1) |-> k])
Days(yy, mm, dd) == NewYear(yy) + YearDay(yy, mm, dd) - 1

\* The year of a day: a guess which is at most one too early or late.
YearOf(k) == LET g == 1970 + (k * 100) \div 36525
             IN  IF NewYear(g + 1) <= k THEN g + 1 ELSE IF NewYear(g) > k THEN g - 1 ELSE g
MonthOf(k) == LET yy == YearOf(k) IN CHOOSE mm \in 1..12 : /\ Days(yy, mm, 1) <= k
                                                           /\ mm = 12 \/ Days(yy, mm + 1, 1) > k
Civil(k) == LET yy == YearOf(k) mm == MonthOf(k)
            IN  [y |-> yy, m |-> mm, d |-> k - Days(yy, mm, 1) + 1, wd |-> (k + 3) % 7, yd |-> k - NewYear(yy) + 1]

\* ISO 8601: a week belongs to the year of its Thursday.
Thursday(c, k) == k - c.wd + 3
IsoYear(c, k) == YearOf(Thursday(c, k))
IsoWeek(c, k) == (Thursday(c, k) - NewYear(IsoYear(c, k))) \div 7 + 1

Shift(t, minutes) ==
  LET s == t.s + minutes * 60
  IN  [n |-> t.n + (s \div 86400), s |-> s % 86400]

-----------------------------------------------------------------------------
(* Formatting *)

RECURSIVE Times0(_, _)
Times0(c, k) == IF k <= 0 THEN "" ELSE c \o Times0(c, k - 1)
\* A number of at least w characters, filled with c.
Pad(x, w, c) == LET t == ToString(x) IN Times0(c, w - Len(t)) \o t

DayNames == <<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>
MonthNames == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Short(s) == SubSeq(s, 1, 3)

Hour12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12

\* Numeric specifiers: <<value, width, filling>>.
Numeric(f, c, t) ==
  LET h == t.s \div 3600 IN
  CASE f = "Y" -> <<c.y, 4, "0">>
    [] f = "C" -> <<c.y \div 100, 2, "0">>
    [] f = "y" -> <<c.y % 100, 2, "0">>
    [] f = "m" -> <<c.m, 2, "0">>
    [] f = "d" -> <<c.d, 2, "0">>
    [] f = "e" -> <<c.d, 2, " ">>
    [] f = "j" -> <<c.yd, 3, "0">>
    [] f = "u" -> <<c.wd + 1, 1, "0">>
    [] f = "w" -> <<(c.wd + 1) % 7, 1, "0">>
    [] f = "W" -> <<(c.yd - 1 + 7 - c.wd) \div 7, 2, "0">>
    [] f = "G" -> <<IsoYear(c, t.n), 4, "0">>
    [] f = "g" -> <<IsoYear(c, t.n) % 100, 2, "0">>
    [] f = "V" -> <<IsoWeek(c, t.n), 2, "0">>
    [] f = "H" -> <<h, 2, "0">>
    [] f = "k" -> <<h, 2, " ">>
    [] f = "I" -> <<Hour12(h), 2, "0">>
    [] f = "l" -> <<Hour12(h), 2, " ">>
    [] f = "M" -> <<(t.s \div 60) % 60, 2, "0">>
    [] f = "S" -> <<t.s % 60, 2, "0">>
    [] OTHER -> <<0, 0, "none">>

\* Seconds since 1970, which do not fit the integers of TLC.
Unix(t) ==
  LET hi == t.n * 864 + (t.s \div 100)
      lo == t.s % 100
  IN  IF hi >= 0 THEN (IF hi = 0 THEN ToString(lo) ELSE ToString(hi) \o Pad(lo, 2, "0"))
      ELSE LET h == IF lo = 0 THEN 0 - hi ELSE (0 - hi) - 1
               l == IF lo = 0 THEN 0 ELSE 100 - lo
           IN  "-" \o (IF h = 0 THEN ToString(l) ELSE ToString(h) \o Pad(l, 2, "0"))

\* Specifiers which stand for others.
Composite(f) ==
  CASE f = "D" -> <<"m", "/", "d", "/", "y">>
    [] f = "x" -> <<"m", "/", "d", "/", "y">>
    [] f = "F" -> <<"Y", "-", "m", "-", "d">>
    [] f = "v" -> <<"e", "-", "b", "-", "Y">>
    [] f = "R" -> <<"H", ":", "M">>
    [] f = "T" -> <<"H", ":", "M", ":", "S">>
    [] f = "X" -> <<"H", ":", "M", ":", "S">>
    [] f = "r" -> <<"I", ":", "M", ":", "S", " ", "p">>
    [] f = "c" -> <<"a", " ", "b", " ", "e", " ", "T", " ", "Y">>
    [] f = "+" -> <<"F", "T:", "T", ":z">>
    [] OTHER -> <<>>

Text(f, c, t) ==
  CASE f = "a" -> Short(DayNames[c.wd + 1])
    [] f = "A" -> DayNames[c.wd + 1]
    [] f \in {"b", "h"} -> Short(MonthNames[c.m])
    [] f = "B" -> MonthNames[c.m]
    [] f = "p" -> IF t.s < 43200 THEN "AM" ELSE "PM"
    [] f = "P" -> IF t.s < 43200 THEN "am" ELSE "pm"
    [] f = "Z" -> "UTC"
    [] f = "z" -> "+0000"
    [] f = ":z" -> "+00:00"
    [] f = "s" -> Unix(t)
    [] f = "f" -> "000000000"
    [] f = ".3f" -> ".000"
    [] f = "n" -> "\n"
    [] f = "t" -> "\t"
    [] f = "%" -> "%"
    [] f = "T:" -> "T"
    [] f \in {"/", "-", ":", " "} -> f
    [] OTHER -> "?"

RECURSIVE Item(_, _, _, _)
Item(f, pad, c, t) ==
  IF Numeric(f, c, t)[3] # "none" THEN
    LET x == Numeric(f, c, t) IN
    CASE pad = "" -> Pad(x[1], x[2], x[3])
      [] pad = "-" -> ToString(x[1])
      [] pad = "_" -> Pad(x[1], x[2], " ")
      [] pad = "0" -> Pad(x[1], x[2], "0")
  ELSE IF Composite(f) # <<>> THEN FoldLeft(LAMBDA a, g : a \o Item(g, "", c, t), "", Composite(f))
  ELSE Text(f, c, t)

Formatted(fmt, t) ==
  LET c == Civil(t.n) IN
  FoldLeft(LAMBDA a, i : a \o IF i.f = "" THEN i.l ELSE Item(i.f, i.pad, c, t), "", fmt)

-----------------------------------------------------------------------------
(* Notations of dates *)

Clock(s) == Pad(s \div 3600, 2, "0") \o ":" \o Pad((s \div 60) % 60, 2, "0")
Sec(s) == Pad(s % 60, 2, "0")
IsoDate(c) == Pad(c.y, 4, "0") \o "-" \o Pad(c.m, 2, "0") \o "-" \o Pad(c.d, 2, "0")
Off(o, sep) == (IF o < 0 THEN "-" ELSE "+") \o Pad((IF o < 0 THEN 0 - o ELSE o) \div 60, 2, "0") \o sep
               \o Pad((IF o < 0 THEN 0 - o ELSE o) % 60, 2, "0")

\* All notations of an instant: <<text, what it denotes>>.  Those without a time denote midnight, those
\* without seconds the full minute, those without an offset UTC.
Notations(t, o) ==
  LET c == Civil(t.n)
      l == Shift(t, o)         \* the local time in the offset
      lc == Civil(l.n)
      midnight == [n |-> t.n, s |-> 0]
      minute == [n |-> t.n, s |-> t.s - (t.s % 60)]
  IN  << <<IsoDate(c), midnight>>,
         <<IsoDate(c) \o " " \o Clock(t.s), minute>>,
         <<IsoDate(c) \o " " \o Clock(t.s) \o ":" \o Sec(t.s), t>>,
         <<IsoDate(c) \o "T" \o Clock(t.s) \o ":" \o Sec(t.s) \o "Z", t>>,
         <<IsoDate(lc) \o "T" \o Clock(l.s) \o ":" \o Sec(l.s) \o Off(o, ":"), t>>,
         <<IsoDate(lc) \o " " \o Clock(l.s) \o ":" \o Sec(l.s) \o " " \o Off(o, ""), t>>,
         <<IsoDate(c) \o " " \o Clock(t.s) \o ":" \o Sec(t.s) \o " UTC", t>>,
         <<ToString(c.d) \o " " \o MonthNames[c.m] \o " " \o Pad(c.y, 4, "0"), midnight>>,
         <<Pad(c.d, 2, "0") \o " " \o Short(MonthNames[c.m]) \o " " \o Pad(c.y, 4, "0") \o ", " \o Clock(t.s), minute>>,
         <<MonthNames[c.m] \o " " \o ToString(c.d) \o ", " \o Pad(c.y, 4, "0"), midnight>>,
         <<Short(MonthNames[c.m]) \o ". " \o Pad(c.d, 2, "0") \o ", " \o Pad(c.y, 4, "0"), midnight>>,
         <<Pad(c.m, 2, "0") \o "/" \o Pad(c.d, 2, "0") \o "/" \o Pad(c.y, 4, "0"), midnight>>,
         <<Pad(c.y, 4, "0") \o "/" \o Pad(c.m, 2, "0") \o "/" \o Pad(c.d, 2, "0"), midnight>>,
         <<Short(DayNames[lc.wd + 1]) \o ", " \o Pad(lc.d, 2, "0") \o " " \o Short(MonthNames[lc.m]) \o " " \o Pad(lc.y, 4, "0") \o " "
           \o Clock(l.s) \o ":" \o Sec(l.s) \o " " \o Off(o, ""), t>> >>
      \o (IF Len(Unix(t)) = 10 /\ t.n > 0 THEN << <<Unix(t), t>>, <<Unix(t) \o "000", t>> >> ELSE <<>>)

\* What looks like a date and is none: the days after the end of the month, and the other months.
NoDates == << Pad(y, 4, "0") \o "-" \o Pad(m, 2, "0") \o "-" \o ToString(MonthLen(y, m) + 1),
              Pad(y, 4, "0") \o "-" \o Pad(m, 2, "0") \o "-00", Pad(y, 4, "0") \o "-" \o ToString(m + 12) \o "-" \o Pad(d, 2, "0"),
              IsoDate([y |-> y, m |-> m, d |-> d]) \o " 24:00:00", IsoDate([y |-> y, m |-> m, d |-> d]) \o " 12:60",
              IsoDate([y |-> y, m |-> m, d |-> d]) \o "x", ToString(MonthLen(y, m) + 1) \o " " \o MonthNames[m] \o " " \o Pad(y, 4, "0") >>

\* White space is no part of a date (but before a day of the week, which RFC 2822 allows).
Padded(ns) == LET of(x) == <<x \o " ", x \o "\n", x \o "\t">> \o (IF \E i \in 1..7 : SubSeq(x, 1, 4) = Short(DayNames[i]) \o "," THEN <<>> ELSE <<" " \o x, "\n" \o x>>)
              IN  FoldLeft(LAMBDA a, k : a \o of(ns[k][1]), <<>>, [k \in 1..Len(ns) |-> k])

Pick(s) == s[(n % Len(s)) + 1]
Instant == LET t == Pick(Times) IN [n |-> n, s |-> t[1] * 3600 + t[2] * 60 + t[3]]

Printed ==
  (n % Every = 0 \/ d = 1 \/ d = MonthLen(y, m) \/ yd <= 4 \/ yd >= 362) =>
  LET ns == Notations(Instant, Pick(Offsets))
      fm == (n % Len(Formats)) + 1
  IN  PrintT("DATE " \o ToJson([fmt |-> fm, dates |-> [i \in 1..Len(ns) |-> ns[i][1]],
                                outs |-> [i \in 1..Len(ns) |-> Formatted(Formats[fm], ns[i][2])],
                                padded |-> IF d = 1 THEN Padded(ns) ELSE <<>>,
                                wrong |-> IF d = MonthLen(y, m) THEN NoDates ELSE <<>>]))

-----------------------------------------------------------------------------
(* The formulas agree with the machine *)

FormulasAgree == Days(y, m, d) = n /\ Civil(n) = [y |-> y, m |-> m, d |-> d, wd |-> wd, yd |-> yd]
WeekLaws == LET c == Civil(n) IN
  /\ IsoWeek(c, n) \in 1..53
  /\ (m = 1 /\ d = 4) => IsoWeek(c, n) = 1 /\ IsoYear(c, n) = y
  /\ (m = 12 /\ d = 28) => IsoWeek(c, n) \in {52, 53} /\ IsoYear(c, n) = y
\* Offsets only write an instant differently.
OffsetLaw == \A i \in 1..Len(Offsets) : Shift(Shift(Instant, Offsets[i]), 0 - Offsets[i]) = Instant
=============================================================================
