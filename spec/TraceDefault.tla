------------------------------ MODULE TraceDefault ------------------------------
(* Conformance of simulated default times.  Draws are random: each run's default times are those of many names, compared with *)
(* the masses of the specification (exactly where these are zero or one, within more than six standard deviations elsewhere). *)
EXTENDS TraceBase, Default

VARIABLES l
vars == <<l>>

RECURSIVE SumCounts(_, _)
SumCounts(gs, i) == IF i > Len(gs) THEN 0 ELSE gs[i].n + SumCounts(gs, i + 1)
StepOf(x, t) == DFloor(DAdd(DDiv(t, x.dt), "0.5"))
OnGrid(x, t) == LET k == StepOf(x, t) IN k >= 1 /\ DClose(t, StepTime(x, k), Tiny, Tiny) /\ (Before(x, k) \/ AtMaturity(x, k))

RECURSIVE CountAt(_, _, _, _)
CountAt(x, gs, k, i) == IF i > Len(gs) THEN 0 ELSE (IF StepOf(x, gs[i].t) = k THEN gs[i].n ELSE 0) + CountAt(x, gs, k, i + 1)

\* observed count against probability p of n: impossible and certain outcomes exactly
Likely(c, n, p) ==
    LET diff == DSub(DInt(c), DMul(DInt(n), p))
    IN IF DEq(p, "0") THEN c = 0 ELSE IF DEq(p, "1") THEN c = n
       ELSE DLe(DMul(diff, diff), DMul("40", DAdd("1", DMul(DInt(n), DMul(p, DSub("1", p))))))

Clauses(e) ==
    IF ~Ok(e) THEN [returned |-> FALSE]
    ELSE LET v == e.out.v
             x == e.run
             mass == DefaultMass(x)
             known == \A i \in 1..Len(v.groups) : OnGrid(x, v.groups[i].t)
             last == SurvivalMass(x)
         IN [count |-> v.none + SumCounts(v.groups, 1) = e.n,
             grid |-> known,
             frequency |-> known => \A k \in 1..Steps(x) : Likely(CountAt(x, v.groups, k, 1), e.n, mass[k]),
             survival |-> known => Likely(e.n - (LET RECURSIVE Up(_)
                                                     Up(k) == IF k > Steps(x) THEN 0 ELSE CountAt(x, v.groups, k, 1) + Up(k + 1)
                                                 IN Up(1)), e.n, last)]

TraceInit == l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN IF e.op = "begin" THEN TRUE ELSE Report(l, Failing(Clauses(e)))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
