----------------------------- MODULE MCDayCount -----------------------------
(* Properties of the conventions themselves, while the end of the period   *)
(* ticks one day at a time from each of a set of start dates.              *)
EXTENDS DayCount, TLC
CONSTANT Span
VARIABLES va, vb, vc
vars == <<va, vb, vc>>

Starts == UNION {(Ord(yy, 2, 26))..(Ord(yy, 3, 1)) : yy \in {1999, 2000, 2003, 2004}}
          \cup {Ord(2001, 12, 31), Ord(2002, 1, 1), Ord(2003, 1, 30), Ord(2003, 1, 31), Ord(2004, 8, 15)}
Init == va \in Starts /\ vb = va /\ vc \in Conventions
Tick == vb < va + Span /\ vb' = vb + 1 /\ UNCHANGED <<va, vc>>
Spec == Init /\ [][Tick]_vars

\* a period is never of negative length, and an empty one has none
NotNegative == LET x == YearFrac(vc, va, vb) IN DLe("0", x) /\ (va = vb => DEq(x, "0"))
\* a period is about as long as the calendar says
Close == LET x == YearFrac(vc, va, vb)
         IN DLe(DAbs(DSub(x, DDiv(vb - va, "365.25"))), DAdd("0.009", DMul("0.015", x)))
\* a timestamp at noon is half way
Noon == LET x == [d |-> va, s |-> "43200"]
        IN vb > va => DClose(DMul(2, Accrual(vc, x, Midnight(vb))),
                          DAdd(YearFrac(vc, va, vb), YearFrac(vc, va + 1, vb)), "0", "1E-30")
\* lengthening the period does not shorten the accrual; ACT conventions count every day once
Monotone == [][DLe(YearFrac(vc, va, vb), YearFrac(vc, va, vb'))]_vars
EveryDayOnce == [][vc # "THIRTY_OVER_THREESIXTY" =>
                     DClose(YearFrac(vc, va, vb'), DAdd(YearFrac(vc, va, vb), YearFrac(vc, vb, vb')), "0", "1E-30")]_vars
=============================================================================
