----------------------------- MODULE MCCalendar -----------------------------
(* The calendar as a state machine that ticks one day at a time, against   *)
(* the closed formulas of Calendar and the business-day rules of Holidays. *)
EXTENDS Holidays, TLC

CONSTANTS From, To      \* years, whole centuries From..To

VARIABLES to, ty, tm, td, tw
vars == <<to, ty, tm, td, tw>>

Init == \E z \in {From + 100 * k : k \in 0..((To - From) \div 100)} :
           /\ ty = z /\ tm = 1 /\ td = 1
           /\ to = Ord(z, 1, 1)
           /\ tw = Weekday(Ord(z, 1, 1))

EndOfMonth == td = DaysInMonth(ty, tm)
Tick ==
    /\ ty <= To
    /\ (ty - From) % 100 # 99 \/ tm < 12 \/ td < 31
    /\ to' = to + 1
    /\ tw' = (tw + 1) % 7
    /\ td' = IF EndOfMonth THEN 1 ELSE td + 1
    /\ tm' = IF EndOfMonth THEN (tm % 12) + 1 ELSE tm
    /\ ty' = IF EndOfMonth /\ tm = 12 THEN ty + 1 ELSE ty
Spec == Init /\ [][Tick]_vars

Agree == /\ YMD(to) = <<ty, tm, td>> /\ Ord(ty, tm, td) = to /\ Weekday(to) = tw
         /\ YearOf(to) = ty /\ MonthOf(to) = tm
         /\ (td = 1 => AddMonths(to, 1) = to + DaysInMonth(ty, tm))
         /\ (IsLastOfMonth(to) <=> EndOfMonth)

\* the US calendar: holidays are weekdays; at most four days in a row are without business;
\* a settlement date never precedes the trade date and never more than a week passes per business day
Calm == /\ (to \in USHolidays => ~IsWeekend(to))
        /\ Following(US, to) - to <= 4
        /\ to - Preceding(US, to) <= 4
        /\ (to \in USHolidays <=> IsHoliday(US, to))
        /\ LET x == ModifiedFollowing(US, to)
           IN IsBusinessDay(US, x) /\ MonthOf(x) = tm
        /\ AddBusinessDays(US, AddBusinessDays(US, to, 2), -2) = Following(US, to)
=============================================================================
