------------------------------ MODULE Holidays ------------------------------
(***************************************************************************)
(* Holiday calendars and business days.  A calendar is a record [us, t]:   *)
(* the US federal calendar if us, else the sequence t of templates         *)
(* [m, d, rule, wd].  A template's date in every year is moved  *)
(* by its rule:                                                            *)
(*   "federal"  Saturday -> the Friday before, Sunday -> the Monday after  *)
(*   "next"     the first weekday wd on or after it                        *)
(*   "none"     not moved                                                  *)
(*   "shift"    moved by wd calendar days                                  *)
(***************************************************************************)
EXTENDS Calendar

USFederal == <<
    [m |-> 1,  d |-> 1,  rule |-> "federal", wd |-> 0],    \* New Year's
    [m |-> 1,  d |-> 17, rule |-> "federal", wd |-> 0],    \* Martin Luther King (the library's template)
    [m |-> 2,  d |-> 15, rule |-> "next",    wd |-> 0],    \* Presidents' day
    [m |-> 5,  d |-> 30, rule |-> "federal", wd |-> 0],    \* Memorial day (the library's template)
    [m |-> 6,  d |-> 19, rule |-> "federal", wd |-> 0],    \* Juneteenth
    [m |-> 7,  d |-> 4,  rule |-> "federal", wd |-> 0],    \* Independence day
    [m |-> 9,  d |-> 1,  rule |-> "next",    wd |-> 0],    \* Labor day
    [m |-> 10, d |-> 8,  rule |-> "next",    wd |-> 0],    \* Columbus day
    [m |-> 11, d |-> 11, rule |-> "federal", wd |-> 0],    \* Veterans' day
    [m |-> 11, d |-> 22, rule |-> "next",    wd |-> 3],    \* Thanksgiving
    [m |-> 12, d |-> 25, rule |-> "federal", wd |-> 0] >>  \* Christmas

Observed(h, y) ==
    LET o == Ord(y, h.m, h.d)
    IN CASE h.rule = "federal" -> IF Weekday(o) = 5 THEN o - 1 ELSE IF Weekday(o) = 6 THEN o + 1 ELSE o
         [] h.rule = "next" -> o + ((h.wd - Weekday(o)) % 7)
         [] h.rule = "shift" -> o + h.wd
         [] OTHER -> o

Templates(cal) == IF cal.us THEN USFederal ELSE cal.t
US == [us |-> TRUE, t |-> <<>>]

HolidaysOfYears(cal, a, b) == LET t == Templates(cal) IN {Observed(t[i], y) : i \in 1..Len(t), y \in a..b}

\* A holiday may be observed in the year before or after that of its template.
IsHoliday(cal, o) == LET y == YearOf(o)
                         t == Templates(cal)
                     IN \E i \in 1..Len(t), z \in (y - 1)..(y + 1) : Observed(t[i], z) = o

\* the same for the US calendar, tabulated
USHolidays == HolidaysOfYears(US, 1890, 2410)

IsBusinessDay(cal, o) ==
    /\ ~IsWeekend(o)
    /\ IF cal.us /\ YearOf(o) \in 1891..2409 THEN o \notin USHolidays ELSE ~IsHoliday(cal, o)

----------------------------------------------------------------------------
(* Moving by business days.  The library's convention: a date that is not  *)
(* a business day counts from the business day after it.                   *)

RECURSIVE Following(_, _), Preceding(_, _), Forward(_, _, _), Backward(_, _, _)
Following(cal, o) == IF IsBusinessDay(cal, o) THEN o ELSE Following(cal, o + 1)
Preceding(cal, o) == IF IsBusinessDay(cal, o) THEN o ELSE Preceding(cal, o - 1)
Forward(cal, o, n) == IF n = 0 THEN o ELSE Forward(cal, Following(cal, o + 1), n - 1)
Backward(cal, o, n) == IF n = 0 THEN o ELSE Backward(cal, Preceding(cal, o - 1), n - 1)

AddBusinessDays(cal, o, n) ==
    IF n >= 0 THEN Forward(cal, Following(cal, o), n) ELSE Backward(cal, Following(cal, o), -n)

ModifiedFollowing(cal, o) ==
    LET x == Following(cal, o) IN IF MonthOf(x) = MonthOf(o) THEN x ELSE Preceding(cal, o)

BusinessDaysBetween(cal, a, b) == {o \in a..b : IsBusinessDay(cal, o)}

Adjust(cal, conv, o) == CASE conv = "FOLLOWING" -> Following(cal, o)
                          [] conv = "MODIFIED_FOLLOWING" -> ModifiedFollowing(cal, o)

Settlement(cal, conv, o) ==
    CASE conv = "T_MINUS_TWO_BUSINESS" -> AddBusinessDays(cal, o, -2)
      [] conv = "T_MINUS_ONE_BUSINESS" -> AddBusinessDays(cal, o, -1)
      [] conv = "T_MINUS_ZERO_BUSINESS" -> Preceding(cal, o)
      [] conv = "T_PLUS_ZERO_BUSINESS" -> AddBusinessDays(cal, o, 0)
      [] conv = "T_PLUS_ONE_BUSINESS" -> AddBusinessDays(cal, o, 1)
      [] conv = "T_PLUS_TWO_BUSINESS" -> AddBusinessDays(cal, o, 2)
      [] conv = "T_PLUS_THREE_BUSINESS" -> AddBusinessDays(cal, o, 3)
SettlementConventions == {"T_MINUS_TWO_BUSINESS", "T_MINUS_ONE_BUSINESS", "T_MINUS_ZERO_BUSINESS",
    "T_PLUS_ZERO_BUSINESS", "T_PLUS_ONE_BUSINESS", "T_PLUS_TWO_BUSINESS", "T_PLUS_THREE_BUSINESS"}
=============================================================================
