------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Sequences of dates at equal increments: the k-th date is the start plus *)
(* k increments (months first, clipped to the month's end), so clipping    *)
(* does not accumulate.  At most `max` dates follow the first.             *)
(***************************************************************************)
EXTENDS DayCount

\* an increment may also name the day of the month its dates fall on
OnDay(o, day) == LET t == YMD(o)
                     n == DaysInMonth(t[1], t[2])
                 IN o - t[3] + (IF day < n THEN day ELSE n)
NthDate(start, inc, k) ==
    IF "day" \in DOMAIN inc THEN IF k = 0 THEN start ELSE OnDay(AddMonths(start, inc.m * k), inc.day) + inc.d * k
    ELSE AddInc(start, ScaleInc(inc, k))

\* number of k >= 0 with start + k inc on the start's side of end, capped
RECURSIVE CountUp(_, _, _, _, _), CountDown(_, _, _, _, _)
CountUp(s, e, inc, k, max) == IF k > max THEN k ELSE IF NthDate(s, inc, k) > e THEN k ELSE CountUp(s, e, inc, k + 1, max)
CountDown(s, e, inc, k, max) == IF k > max THEN k ELSE IF NthDate(s, inc, k) < e THEN k ELSE CountDown(s, e, inc, k + 1, max)

Increments(s, e, inc, up, max) ==
    LET n == IF up THEN CountUp(s, e, inc, 0, max) ELSE CountDown(s, e, inc, 0, max)
    IN [i \in 1..n |-> NthDate(s, inc, i - 1)]

\* timestamps: an increment has months, days and seconds (a Dec)
AddDt(t, inc, k) ==
    LET o == AddInc(t.d, [m |-> inc.m * k, d |-> inc.d * k])
        s == DAdd(t.s, DMul(inc.s, k))
        c == DFloor(DDiv(s, 86400))
    IN [d |-> o + c, s |-> DSub(s, DMul(c, 86400))]

IncIsUp(inc, t) == DtLe(t, AddDt(t, inc, 1))

RECURSIVE CountDt(_, _, _, _, _, _)
CountDt(s, e, inc, up, k, max) ==
    IF k > max THEN k
    ELSE LET t == AddDt(s, inc, k)
         IN IF (up /\ DtLt(e, t)) \/ (~up /\ DtLt(t, e)) THEN k ELSE CountDt(s, e, inc, up, k + 1, max)

IncrementsDt(s, e, inc, max) ==
    LET n == CountDt(s, e, inc, IncIsUp(inc, s), 0, max)
    IN [i \in 1..n |-> AddDt(s, inc, i - 1)]
=============================================================================
