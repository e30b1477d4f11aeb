------------------------------ MODULE DayCount ------------------------------
(***************************************************************************)
(* Day-count conventions: the length in years of an accrual period.        *)
(* The functions on dates give a numerator and a denominator (or a Dec);   *)
(* a timestamp [d, s] (day and seconds since midnight) within a day is     *)
(* interpolated linearly between the midnights around it.                  *)
(***************************************************************************)
EXTENDS Calendar, Dec

Conventions == {"ACTUAL_OVER_360", "ACTUAL_OVER_365", "ACTUAL_OVER_365_POINT_25",
                "ACTUAL_OVER_ACTUAL", "THIRTY_OVER_THREESIXTY"}

\* 30/360 US, month-end rule on
Days30360(a, b) ==
    LET s == YMD(a)
        e == YMD(b)
        sFeb == s[2] = 2 /\ IsLastOfMonth(a)
        eFeb == e[2] = 2 /\ IsLastOfMonth(b)
        e1 == IF sFeb /\ eFeb THEN 30 ELSE e[3]
        s1 == IF sFeb THEN 30 ELSE s[3]
        e2 == IF e1 = 31 /\ s1 \in {30, 31} THEN 30 ELSE e1
        s2 == IF s1 = 31 THEN 30 ELSE s1
    IN 360 * (e[1] - s[1]) + 30 * (e[2] - s[2]) + (e2 - s2)

\* position of a date in years: day n of year y is y + n / (days in y)
ActActPos(o) == LET y == YearOf(o) IN DAdd(y, DDiv(DayOfYear(o), DaysInYear(y)))

YearFrac(conv, a, b) ==
    CASE conv = "ACTUAL_OVER_360" -> DDiv(b - a, 360)
      [] conv = "ACTUAL_OVER_365" -> DDiv(b - a, 365)
      [] conv = "ACTUAL_OVER_365_POINT_25" -> DDiv(b - a, "365.25")
      [] conv = "ACTUAL_OVER_ACTUAL" ->
            IF YearOf(a) = YearOf(b) THEN DDiv(b - a, DaysInYear(YearOf(a))) ELSE DSub(ActActPos(b), ActActPos(a))
      [] conv = "THIRTY_OVER_THREESIXTY" -> DDiv(Days30360(a, b), 360)

DayFrac(t) == DDiv(t.s, 86400)

DtLe(a, b) == a.d < b.d \/ (a.d = b.d /\ DLe(a.s, b.s))
DtLt(a, b) == a.d < b.d \/ (a.d = b.d /\ DLt(a.s, b.s))
DtEq(a, b) == a.d = b.d /\ DEq(a.s, b.s)
Midnight(o) == [d |-> o, s |-> "0"]

\* accrual between two timestamps, a <= b
Accrual(conv, a, b) ==
    LET f == DayFrac(a)
        g == DayFrac(b)
    IN IF a.d = b.d
       THEN DMul(DSub(g, f), YearFrac(conv, a.d, a.d + 1))
       ELSE LET To(x) == DAdd(DMul(DSub("1", g), YearFrac(conv, x, b.d)),
                              IF DEq(g, "0") THEN "0" ELSE DMul(g, YearFrac(conv, x, b.d + 1)))
            IN IF DEq(f, "0") THEN To(a.d)
               ELSE DAdd(DMul(DSub("1", f), To(a.d)), DMul(f, To(a.d + 1)))

\* seconds between two timestamps
SecondsBetween(a, b) == DAdd(DMul(b.d - a.d, 86400), DSub(b.s, a.s))
=============================================================================
