------------------------------- MODULE MCWalk -------------------------------
(* A walker on the days of the calendar: forward or backward one calendar  *)
(* day at a time, counting business days, against AddBusinessDays; and     *)
(* business days against their count in the interval walked.               *)
EXTENDS Holidays, TLC, FiniteSets
CONSTANTS Starts, Steps
VARIABLES vs, vp, vn, vdir
vars == <<vs, vp, vn, vdir>>
\* starts around year ends: Dec 24 .. Jan 4 of consecutive years
Init == /\ vs \in {Ord(2000 + (j \div 4), 12, 24) + (j % 4) * 3 : j \in 0..(Starts - 1)}
        /\ vp = Following(US, vs) /\ vn = 0 /\ vdir \in {1, -1}
Walk == /\ vn # vdir * Steps
        /\ vp' = vp + vdir
        /\ vn' = IF IsBusinessDay(US, vp') THEN vn + vdir ELSE vn
        /\ UNCHANGED <<vs, vdir>>
Spec == Init /\ [][Walk]_vars
Agree == IsBusinessDay(US, vp) => vp = AddBusinessDays(US, vs, vn)
Counted == vn = IF vdir = 1 THEN Cardinality(BusinessDaysBetween(US, Following(US, vs) + 1, vp))
                ELSE -Cardinality(BusinessDaysBetween(US, vp, Following(US, vs) - 1))
RoundTrip == IsBusinessDay(US, vp) => AddBusinessDays(US, vp, -vn) = Following(US, vs)
=============================================================================
