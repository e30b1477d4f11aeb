---------------------------- MODULE TraceDayCount ----------------------------
(* Conformance of accrual lengths. *)
EXTENDS TraceBase, DayCount

VARIABLE l

Clauses(e) ==
    CASE e.op = "accrual" ->
           IF e.a > e.b THEN [reversed_dates_refused |-> ~Ok(e)]
           ELSE IF ~Ok(e) THEN [returned |-> FALSE]
           ELSE [convention |-> Near(e.out.v, YearFrac(e.conv, e.a, e.b)),
                 not_negative |-> DLe("0", e.out.v),
                 empty_period |-> e.a = e.b => DEq(e.out.v, "0")]
      [] e.op = "accrual_dt" ->
           IF DtLt(e.b, e.a) THEN [reversed_dates_refused |-> ~Ok(e)]
           ELSE IF ~Ok(e) THEN [returned |-> FALSE]
           ELSE [convention |-> Near(e.out.v, Accrual(e.conv, e.a, e.b)),
                 not_negative |-> DLe("-1E-15", e.out.v)]
      [] e.op = "unknown" -> [unknown_convention_refused |-> ~Ok(e)]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "fraction" -> [of_a_year |-> Near(e.out.v, DDiv(e.seconds, "31557600"))]
      [] e.op = "partition" ->
           LET n == Len(e.out.v)
           IN [additive |-> Near(DSum(SubSeq(e.out.v, 1, n - 1)), e.out.v[n])]
      [] e.op = "accrual_row" ->
           [convention |-> \A i \in 1..Len(e.bs) : Near(e.out.v[i], YearFrac(e.conv, e.a, e.bs[i])),
            monotone |-> \A i \in 1..(Len(e.bs) - 1) : DLe(e.out.v[i], e.out.v[i + 1])]

TraceInit == l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN IF e.op = "begin" THEN TRUE ELSE Report(l, Failing(Clauses(e)))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
