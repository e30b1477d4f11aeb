----------------------------- MODULE TraceSched -----------------------------
(* Conformance of holidays, business days, adjustments, settlement and     *)
(* schedules.  State: the date of a business-day walk (0: no walk), and    *)
(* the rules of a calendar held for a while, to which holidays are added,  *)
(* moved and dropped.                                                      *)
EXTENDS TraceBase, Holidays, Schedule

VARIABLES l, cur, held

CalOf(e) == IF "cal" \in DOMAIN e THEN e.cal ELSE [us |-> FALSE, t |-> held]

\* the held rules after the event
Held(e) ==
    CASE e.op = "cal_hold" -> Templates(e.rules)
      [] e.op = "cal_put" -> IF e.at > Len(held) THEN Append(held, e.rule) ELSE [held EXCEPT ![e.at] = e.rule]
      [] e.op = "cal_drop" -> SubSeq(held, 1, e.at - 1) \o SubSeq(held, e.at + 1, Len(held))
      [] OTHER -> held

Range(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

\* the walk's date after the event
After(e) ==
    CASE e.op = "walk_start" -> e.d
      [] e.op = "walk_add" -> AddBusinessDays(CalOf(e), cur, 1)
      [] e.op = "walk_sub" -> AddBusinessDays(CalOf(e), cur, -1)
      [] e.op = "walk_jump" -> AddBusinessDays(CalOf(e), cur, e.n)
      [] e.op = "walk_adjust" -> Adjust(CalOf(e), e.conv, cur)
      [] OTHER -> cur

Clauses(e) ==
    CASE e.op \in {"walk_start", "cal_hold", "cal_put", "cal_drop"} -> [returned |-> TRUE]
      [] e.op = "add_single" ->
            IF ~IsBusinessDay(CalOf(e), e.d) THEN [refused |-> ~Ok(e)]
            ELSE [next |-> Ok(e) /\ e.out.v = Following(CalOf(e), e.d + 1)]
      [] ~Ok(e) -> [returned |-> e.op \in {"settle"} /\ e.conv \notin SettlementConventions]
      [] e.op = "holidays" ->
            [listing |-> Range(e.out.v) = HolidaysOfYears(CalOf(e), e.from, e.to)]
      [] e.op = "holidays_named" ->
            [listing |-> Range(e.out.v) = {Observed(Templates(CalOf(e))[e.index], y) : y \in (e.from)..(e.to)}]
      [] e.op = "business_days" ->       \* every day of a..b asked one by one
            LET H == HolidaysOfYears(CalOf(e), YearOf(e.a) - 1, YearOf(e.b) + 1)
            IN [weekday_and_no_holiday |-> Range(e.out.v) = {o \in (e.a)..(e.b) : ~IsWeekend(o) /\ o \notin H}]
      [] e.op = "is_business_day" -> [business_day |-> e.out.v = IsBusinessDay(CalOf(e), e.d)]
      [] e.op = "next_weekday" -> [first_on_or_after |-> /\ Weekday(e.out.v) = e.wd
                                                         /\ e.out.v \in (e.d)..(e.d + 6)]
      [] e.op = "between" ->
            LET H == HolidaysOfYears(CalOf(e), YearOf(e.a) - 1, YearOf(e.b) + 1)
            IN [all_and_only |-> Range(e.out.v) = {o \in (e.a)..(e.b) : ~IsWeekend(o) /\ o \notin H},
                increasing |-> Sorted(e.out.v)]
      [] e.op = "add_business_days" -> [counted |-> e.out.v = AddBusinessDays(CalOf(e), e.d, e.n)]
      [] e.op = "adjust" -> [business_day |-> IsBusinessDay(CalOf(e), e.out.v),
                             adjusted |-> e.out.v = Adjust(CalOf(e), e.conv, e.d)]
      [] e.op = "settle" -> [convention |-> /\ e.conv \in SettlementConventions
                                            /\ e.out.v = Settlement(CalOf(e), e.conv, e.d)]
      [] e.op \in {"walk_add", "walk_sub", "walk_jump", "walk_adjust"} -> [step |-> e.out.v = After(e)]
      [] e.op = "increments" ->
            LET S == Increments(e.start, e.end, e.inc, e.up, e.max)
            IN IF Len(S) <= e.max THEN [dates |-> e.out.v = S]
               ELSE [capped |-> Len(e.out.v) \in {e.max, e.max + 1} /\ e.out.v = SubSeq(S, 1, Len(e.out.v))]
      [] e.op = "increments_dt" ->
            LET S == IncrementsDt(e.start, e.end, e.inc, e.max)
            IN [length |-> Len(e.out.v) = Len(S),
                datetimes |-> Len(e.out.v) = Len(S) => \A i \in 1..Len(S) : DtEq(e.out.v[i], S[i])]

TraceInit == l = 1 /\ cur = 0 /\ held = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN cur' = 0 /\ held' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ cur' = After(e)
               /\ held' = Held(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cur, held>>
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
