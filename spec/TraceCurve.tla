------------------------------ MODULE TraceCurve ------------------------------
(* Conformance of curves: interpolation, adjustments, resets, discount     *)
(* curves, present values, calibration and key-rate risk.                  *)
(* State: the curve (with what interpolation needs), the discount curves   *)
(* taken from it so far.                                                   *)
EXTENDS TraceBase, Cashflow, Holidays

VARIABLES l, cv, pr, sn
vars == <<l, cv, pr, sn>>

SameKnots(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : DtEq(At(a[i]), At(b[i])) /\ DEq(a[i].v, b[i].v)
NearKnots(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : DtEq(At(a[i]), At(b[i])) /\ Near(a[i].v, b[i].v)

\* quotes: instruments' knots with the adjustments of the first ones
Quoted(e) == [i \in 1..Len(e.curve.knots) |->
                 IF i <= Len(e.quotes) THEN [e.curve.knots[i] EXCEPT !.v = DAdd(e.curve.knots[i].v, e.quotes[i])]
                 ELSE e.curve.knots[i]]

IsReset(e) == e.op \in {"reset", "reset_at"}
Wanted(e) == IF e.op = "reset" THEN Reset(cv, e.knots) ELSE ResetAt(cv, IF e.i < 0 THEN Len(cv.knots) + e.i + 1 ELSE e.i + 1, e.knot)

AfterCurve(e) ==
    CASE e.op = "curve" -> [e.curve EXCEPT !.knots = SortKnots(Quoted(e))]
      [] e.op = "calibrated" -> IF Ok(e) THEN [e.curve EXCEPT !.knots = e.out.v.knots] ELSE cv
      [] IsReset(e) -> IF Valid(Wanted(e)) THEN Wanted(e) ELSE cv
      [] OTHER -> cv
Changes(e) == e.op \in {"curve", "calibrated"} \/ (IsReset(e) /\ Valid(Wanted(e)))

AfterSnaps(e) ==
    CASE e.op \in {"curve", "calibrated"} -> <<>>
      [] e.op = "discount" /\ SnapshotDefined(e.space, cv) -> Append(sn, Snapshot(e.space, cv, pr, e.adj))
      [] OTHER -> sn

\* payments an instrument's holder at the curve's date receives: those due on or after settlement; every
\* payment of a bare cash flow
Received(inst) ==
    IF inst.conv = "NONE" THEN inst.pay
    ELSE LET s == Settlement(US, inst.conv, cv.ref.d)
         IN [i \in 1..Len(inst.pay) |-> [inst.pay[i] EXCEPT !.has = inst.pay[i].u >= s]]
ReceivedAt(inst, ref) ==
    LET s == Settlement(US, inst.conv, ref)
    IN [i \in 1..Len(inst.pay) |-> [inst.pay[i] EXCEPT !.has = inst.pay[i].u >= s]]

\* change of value for one basis point of a key rate's hat
Bumped(h, b) == [h EXCEPT !.bump = b]
PvHat(h, b, pay) == Pv(Snapshot("CONTINUOUSLY_COMPOUNDED_YIELD", cv, pr, [kind |-> "keyrates", hats |-> <<Bumped(h, b)>>]), pay)
Pv01(h, pay) == DSub(PvHat(h, "0.00005", pay), PvHat(h, "-0.00005", pay))
\* values are sums of about the size of the payments; a difference of two of them keeps that rounding
Size(pay) == DSum([i \in 1..Len(pay) |-> IF pay[i].has THEN DAbs(pay[i].v) ELSE "0"])
Tiny(pay) == DAdd("1E-12", DMul("1E-13", Size(pay)))
NearRisk(a, b, pay) == DClose(a, b, "1E-8", Tiny(pay))
NearPv(a, b, pay) == DClose(a, b, "1E-9", DMul("1E-12", DAdd("1", Size(pay))))

SafePv(q, pay, out) == IF PvDefined(q, pay) THEN out.ok /\ NearPv(out.v, Pv(q, pay), pay) ELSE ~out.ok

Clauses(e) ==
    CASE IsReset(e) ->
            IF Valid(Wanted(e)) THEN [accepted |-> Ok(e), knots |-> Ok(e) => SameKnots(e.out.v, Wanted(e).knots)]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "value" ->
            IF Defined(cv, e.t) /\ DtLe(cv.ref, e.t)
            THEN [value |-> Ok(e) /\ Near(e.out.v, Value(cv, pr, e.t, e.adj))]
            ELSE IF ~Defined(cv, e.t) THEN [refused |-> ~Ok(e)]
            ELSE [flat_left |-> Ok(e) /\ Near(e.out.v, Value(cv, pr, e.t, e.adj))]
      [] e.op = "df" ->
            LET q == sn[e.snap]
            IN IF DfDefined(q, e.t.d) THEN [discount_factor |-> Ok(e) /\ Near(e.out.v, Df(q, e.t.d))]
               ELSE [refused |-> ~Ok(e)]
      [] e.op = "pv" /\ ~SnapshotDefined(e.space, cv) -> [refused |-> ~Ok(e)]
      [] e.op = "pv" -> [present_value |-> SafePv(Snapshot(e.space, cv, pr, e.adj), Received(e.inst), e.out)]
      [] e.op = "pv_snap" -> [present_value |-> SafePv(sn[e.snap], Received(e.inst), e.out)]
      [] e.op = "discount" /\ ~SnapshotDefined(e.space, cv) -> [refused |-> ~Ok(e)]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "curve" -> [knots |-> NearKnots(e.out.v, AfterCurve(e).knots)]
      [] e.op = "discount" -> [anchored |-> LET q == Snapshot(e.space, cv, pr, e.adj)
                                            IN DfDefined(q, q.c.ref.d) => Near(e.out.v, Df(q, q.c.ref.d))]
      [] e.op = "kept" -> [caller_list |-> SameKnots(e.out.v, e.knots)]
      [] e.op = "knots" -> [knots |-> NearKnots(e.out.v, cv.knots)]
      [] e.op = "axis" -> [axis |-> Near(e.out.v, Axis(cv, e.t))]
      [] e.op = "calibrated" ->
            LET c == AfterCurve(e)
                q == Snapshot("CONTINUOUSLY_COMPOUNDED_YIELD", c, Prepared(c), NoAdj)
            IN [knot_dates |-> [i \in 1..Len(c.knots) |-> c.knots[i].d] = [i \in 1..Len(e.curve.knots) |-> SortKnots(e.curve.knots)[i].d],
                reprices |-> \A i \in 1..Len(e.inst) :
                                LET r == ReceivedAt(e.inst[i], c.ref.d)
                                IN DClose(Pv(q, r), e.inst[i].price, "0", "1E-6"),
                reported |-> \A i \in 1..Len(e.inst) :
                                LET r == ReceivedAt(e.inst[i], c.ref.d)
                                IN NearT(e.out.v.pv[i], Pv(q, r), "1E-8")]
      [] e.op = "key_rate_deriv" ->
            LET p == Received(e.inst) IN
            [derivative |-> DClose(e.out.v.v, DDiv(Pv01(e.hat, p), "0.0001"), "1E-8", DMul(Tiny(p), "10000")),
             bump_restored |-> DEq(e.out.v.bump, e.hat.bump)]
      [] e.op = "pv01" ->
            LET p == Received(e.inst) IN
            [pv01 |-> NearRisk(e.out.v.v, Pv01(e.hat, p), p),
             date |-> e.out.v.d = e.hat.d,
             index |-> e.out.v.index = "US_TREASURY",
             bump_restored |-> DEq(e.out.v.bump, e.hat.bump)]
      [] e.op = "ladder" ->
            LET pay == Received(e.inst) IN
            [one_per_key_rate |-> e.out.v.d = [i \in 1..Len(e.hats) |-> e.hats[i].d],
             length |-> e.out.v.len = Len(e.hats),
             stepped |-> e.out.v.steps = <<e.out.v.d, e.out.v.d, e.out.v.d>> /\ e.out.v.inside = [i \in 1..Len(e.hats) |-> TRUE],
             pv01s |-> Len(e.out.v.v) = Len(e.hats) /\ \A i \in 1..Len(e.hats) : NearRisk(e.out.v.v[i], Pv01(e.hats[i], pay), pay),
             parallel |-> e.whole => LET p(b) == Pv(Snapshot("CONTINUOUSLY_COMPOUNDED_YIELD", cv, pr, [kind |-> "const", a |-> b]), pay)
                                     IN DClose(DSum(e.out.v.v), DSub(p("0.00005"), p("-0.00005")), "1E-5", Tiny(pay)),
             indices |-> e.out.v.indices = [i \in 1..Len(e.hats) |-> "US_TREASURY"],
             bumps_restored |-> Len(e.out.v.bumps) = Len(e.hats) /\ \A i \in 1..Len(e.hats) : DEq(e.out.v.bumps[i], e.hats[i].bump)]

      [] e.op = "risk_bumps" ->
            LET plain == Snapshot("CONTINUOUSLY_COMPOUNDED_YIELD", cv, pr, NoAdj)
            IN [refused |-> e.out.v.refused = ~PvDefined(plain, Received(e.inst)),
                bumps_restored |-> Len(e.out.v.bumps) = Len(e.hats) /\ \A i \in 1..Len(e.hats) : DEq(e.out.v.bumps[i], e.hats[i].bump)]
      [] e.op = "risks" ->
            LET n == Len(e.risks)
                ds == [i \in 1..n |-> e.risks[i].d]
            IN [kept |-> Len(e.out.v.risks) = n /\ \A i \in 1..n : /\ e.out.v.risks[i].d = ds[i]
                                                                   /\ e.out.v.risks[i].index = e.risks[i].index
                                                                   /\ DEq(e.out.v.risks[i].v, e.risks[i].v),
                length |-> e.out.v.len = <<n, n, n>> /\ Len(e.out.v.inside) = n,
                members |-> /\ \A i \in 1..Len(e.out.v.inside) : e.out.v.inside[i]
                            /\ \A i \in 1..Len(e.out.v.outside) : ~e.out.v.outside[i],
                stepped |-> e.out.v.steps = <<ds, ds>>]

TraceInit == l = 1 /\ cv = <<>> /\ pr = <<>> /\ sn = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN cv' = <<>> /\ pr' = <<>> /\ sn' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ cv' = AfterCurve(e)
               /\ pr' = IF Changes(e) THEN Prepared(cv') ELSE pr
               /\ sn' = AfterSnaps(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
