------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar.  A date is its ordinal: 1 is          *)
(* 0001-01-01, a Monday.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

DaysInMonth(y, m) ==
    CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
      [] m \in {4, 6, 9, 11} -> 30
      [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28

DaysInYear(y) == IF IsLeap(y) THEN 366 ELSE 365

CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>

DaysBeforeMonth(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DaysBeforeYear(y) == LET z == y - 1 IN z * 365 + z \div 4 - z \div 100 + z \div 400

Ord(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d

\* the year of a date: 146097 days every 400 years
YearOf(o) == LET y == ((o - 1) * 400) \div 146097 + 1
             IN IF DaysBeforeYear(y + 1) < o THEN y + 1
                ELSE IF DaysBeforeYear(y) >= o THEN y - 1 ELSE y

DayOfYear(o) == o - DaysBeforeYear(YearOf(o))

MonthOf(o) == LET y == YearOf(o)
                  n == o - DaysBeforeYear(y)
                  g == (n - 1) \div 29 + 1          \* at least the month
                  h == IF g > 12 THEN 12 ELSE g
                  Fit(m) == DaysBeforeMonth(y, m) < n
              IN IF Fit(h) THEN h ELSE IF Fit(h - 1) THEN h - 1 ELSE h - 2

YMD(o) == LET y == YearOf(o)
              m == MonthOf(o)
          IN <<y, m, o - DaysBeforeYear(y) - DaysBeforeMonth(y, m)>>

DayOf(o) == YMD(o)[3]

\* 0 is Monday, 6 Sunday
Weekday(o) == (o + 6) % 7
IsWeekend(o) == Weekday(o) >= 5

IsLastOfMonth(o) == LET t == YMD(o) IN t[3] = DaysInMonth(t[1], t[2])

\* k months later; a day the month does not have becomes the last of the month
AddMonths(o, k) ==
    LET t == YMD(o)
        n == t[1] * 12 + (t[2] - 1) + k
        y == n \div 12
        m == (n % 12) + 1
        dm == DaysInMonth(y, m)
    IN Ord(y, m, IF t[3] > dm THEN dm ELSE t[3])

AddYears(o, k) == AddMonths(o, 12 * k)

\* an increment is a record [m |-> months, d |-> days]; the months are applied first
AddInc(o, inc) == AddMonths(o, inc.m) + inc.d
ScaleInc(inc, k) == [m |-> inc.m * k, d |-> inc.d * k]
=============================================================================
