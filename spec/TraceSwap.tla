------------------------------- MODULE TraceSwap -------------------------------
(* Conformance of swaps and futures.  State: the swap, the legs stored in  *)
(* it ([set, pay]), the discount curve.                                    *)
EXTENDS TraceBase, Swap

VARIABLES l, sw, fx, fl, dq
vars == <<l, sw, fx, fl, dq>>

\* amounts come out of sums and products of the size of the notional
Size == sw.notional
NearBy(a, b, size) == DClose(a, b, "1E-9", DMul("1E-12", DAdd("1", size)))
SamePeriods(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].a = b[i].a /\ a[i].b = b[i].b /\ Near(a[i].f, b[i].f)
SamePays(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in 1..Len(a) : a[i].d = b[i].d /\ a[i].has = b[i].has /\ NearBy(a[i].v, b[i].v, Size)
SameLeg(a, b) == a.set = b.set /\ (b.set => SamePays(a.pay, b.pay))

Unset == [set |-> FALSE, pay |-> <<>>]
Stored(p) == [set |-> TRUE, pay |-> p]

AfterFx(e) == CASE e.op = "swap" -> Unset
                [] e.op = "fixed_leg" /\ e.set /\ LegOk(sw.fx) -> Stored(FixedLeg(sw))
                [] OTHER -> fx
AfterFl(e) == CASE e.op = "swap" -> Unset
                [] e.op = "float_leg" /\ e.set /\ LegOk(sw.fl) /\ FloatDefined(sw, e.rate) -> Stored(FloatLeg(sw, e.rate))
                [] e.op = "implied" /\ e.set /\ LegOk(sw.fl) /\ FloatDefined(sw, e.rate) -> Stored(FloatLeg(sw, e.rate))
                [] OTHER -> fl
AfterQ(e) == IF e.op = "discount" THEN LET c == [e.curve EXCEPT !.knots = SortKnots(e.curve.knots)]
                                       IN [space |-> "DISCOUNT_FACTOR", c |-> c, p |-> Prepared(c), adj |-> NoAdj]
             ELSE dq

Clauses(e) ==
    CASE e.op = "bad_swap" -> [refused |-> ~Ok(e)]
      [] e.op = "fixed_schedule" /\ ~LegOk(sw.fx) -> [refused |-> ~Ok(e)]
      [] e.op = "float_schedule" /\ ~LegOk(sw.fl) -> [refused |-> ~Ok(e)]
      [] e.op = "fixed_leg" /\ ~LegOk(sw.fx) -> [refused |-> ~Ok(e)]
      [] e.op = "float_leg" /\ (~LegOk(sw.fl) \/ ~FloatDefined(sw, e.rate)) -> [refused |-> ~Ok(e)]
      [] e.op = "pv" ->
            IF fx.set /\ fl.set /\ PvDefined(dq, fx.pay) /\ PvDefined(dq, fl.pay)
            THEN [present_value |-> Ok(e) /\ NearBy(e.out.v, SwapPv(sw, dq, fx.pay, fl.pay), Size)]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "implied" ->
            IF LegOk(sw.fl) /\ LegOk(sw.fx) /\ ImpliedDefined(sw, dq, e.rate)
            THEN [implied_rate |-> Ok(e) /\ DClose(e.out.v, Implied(sw, dq, e.rate), "1E-9", "1E-11")]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "future" ->
            IF SettlementRateDefined(e.future, e.rate) THEN [settlement_rate |-> Ok(e) /\ Near(e.out.v, SettlementRate(e.future, e.rate))]
            ELSE [refused |-> ~Ok(e)]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "future_terms" -> [terms |-> e.out.v = e.terms]
      [] e.op = "swap" ->
            [terms |-> e.out.v.terms = e.swap,
             start |-> e.out.v.start = StartOf(e.swap),
             end |-> e.out.v.end = EndOf(e.swap),
             knot |-> e.out.v.knot.d = EndOf(e.swap) /\ DEq(e.out.v.knot.v, e.swap.rate)]
      [] e.op = "fixed_schedule" -> [periods |-> SamePeriods(e.out.v, Periods(sw, sw.fx))]
      [] e.op = "float_schedule" -> [periods |-> SamePeriods(e.out.v, Periods(sw, sw.fl))]
      [] e.op = "fixed_leg" -> [payments |-> SamePays(e.out.v, FixedLeg(sw))]
      [] e.op = "float_leg" -> [payments |-> SamePays(e.out.v, FloatLeg(sw, e.rate))]
      [] e.op = "legs" -> [fixed |-> SameLeg(e.out.v.fixed, fx), float |-> SameLeg(e.out.v.float, fl),
                           read_alike |-> e.out.v.fixed2 = e.out.v.fixed /\ e.out.v.float2 = e.out.v.float]
      [] e.op = "adjust" -> [adjusted |-> /\ Len(e.out.v) = Len(e.at)
                                          /\ \A i \in 1..Len(e.at) : e.out.v[i] = Adjust(sw.cal, sw.adj, e.at[i])]
      [] e.op = "annualized" -> [annualized_rate |-> Near(e.out.v, Compounded(e.rate, RatePrepared(e.rate), sw.cal, e.a, e.b))]
      [] e.op = "discount" -> [returned |-> TRUE]

TraceInit == l = 1 /\ sw = <<>> /\ fx = Unset /\ fl = Unset /\ dq = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN sw' = <<>> /\ fx' = Unset /\ fl' = Unset /\ dq' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ sw' = IF e.op = "swap" THEN e.swap ELSE sw
               /\ fx' = AfterFx(e) /\ fl' = AfterFl(e) /\ dq' = AfterQ(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
