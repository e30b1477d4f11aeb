------------------------------- MODULE TraceBond -------------------------------
(* Conformance of bonds.  State: the bond; it does not change, whatever is *)
(* asked of it and in whatever order.                                      *)
EXTENDS TraceBase, Bond, Cashflow

VARIABLES l, bd
vars == <<l, bd>>

SamePay(a, b) == a.u = b.u /\ a.d = b.d /\ Near(a.v, b.v)
SamePays(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SamePay(a[i], b[i])

Settle(e) == SettlementAt(bd, e.ref)

\* on a discount curve: what its holder receives who buys on the curve's date
Snap(c) == LET s == [c EXCEPT !.knots = SortKnots(c.knots)] IN [space |-> "DISCOUNT_FACTOR", c |-> s, p |-> Prepared(s), adj |-> NoAdj]
OnCurve(b, ref) == LET all == AllPayments(b)
                       s == SettlementAt(b, ref)
                   IN [i \in 1..Len(all) |-> [d |-> all[i].d, has |-> all[i].u >= s, v |-> all[i].v]]
SafePv(q, pay, out) == IF PvDefined(q, pay) THEN out.ok /\ DClose(out.v, Pv(q, pay), "1E-9", DMul("1E-12", DAbs(bd.principal))) ELSE ~out.ok
PriceDefined(b, ref) == AccruedDefined(b, SettlementAt(b, ref))

Clauses(e) ==
    CASE e.op = "bond" ->
            IF ~PriceDefined(e.bond, e.bond.purchase) THEN [refused |-> ~Ok(e)]
            ELSE IF ~Ok(e) THEN [accepted |-> FALSE]
            ELSE LET b == e.bond
                     v == e.out.v
                 IN [terms |-> v.terms = b,
                     dated_date |-> v.dated = DatedDate(b),
                     coupons |-> SamePays(v.coupons, Coupons(b)),
                     principal |-> SamePays(v.principal, <<Principal(b)>>),
                     settlement |-> v.settlement = SettlementAt(b, b.purchase),
                     accrued_interest |-> Near(v.accrued, Accrued(b, SettlementAt(b, b.purchase))),
                     full_price |-> Near(v.full, FullPrice(b, b.purchase)),
                     knot |-> v.knot.d = Adj(b, b.mat) /\ DEq(v.knot.v, b.price)]
      [] e.op = "accrued" ->
            IF PriceDefined(bd, e.ref) THEN [accrued_interest |-> Ok(e) /\ Near(e.out.v, Accrued(bd, Settle(e)))]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "full_price" ->
            IF PriceDefined(bd, e.ref) THEN [full_price |-> Ok(e) /\ Near(e.out.v, FullPrice(bd, e.ref))]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "pv_rate" ->
            IF FlowsDefined(bd, e.ref) THEN [discounted |-> Ok(e) /\ Near(e.out.v, PvRate(bd, Flows(bd, e.ref), e.rate))]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "pv_curve" -> [on_curve |-> SafePv(Snap(e.curve), OnCurve(bd, e.curve.ref.d), e.out)]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "adjust" -> [adjusted |-> /\ Len(e.out.v) = Len(e.at)
                                          /\ \A i \in 1..Len(e.at) : e.out.v[i] = Adj(bd, e.at[i])]
      [] e.op = "coupon" -> [coupon |-> Near(e.out.v, CouponAmount(bd))]
      [] e.op = "received" ->
            LET all == AllPayments(bd)
            IN [received |-> Len(e.out.v) = Len(all) /\ \A i \in 1..Len(all) : e.out.v[i] = IsReceived(bd, all[i].u, e.ref)]
      [] e.op = "ytm" ->
            [reprices |-> LET t == Target(bd, e.ref) IN DClose(PvRate(bd, Flows(bd, e.ref), e.out.v), t, "1E-8", "0")]
      [] e.op = "risk" ->
            LET fl == Flows(bd, bd.purchase)
                y == e.out.v.ytm
            IN [reprices |-> DClose(PvRate(bd, fl, y), Target(bd, bd.purchase), "1E-8", "0"),
                duration |-> DClose(e.out.v.duration, Duration(bd, fl, y), "1E-7", "1E-7"),
                convexity |-> DClose(e.out.v.convexity, Convexity(bd, fl, y), "1E-5", "1E-4")]
      [] e.op = "pv_deriv" ->
            LET fl == Flows(bd, bd.purchase)
                y == DAdd(e.rate, e.offset)
            IN [derivative |-> DClose(e.out.v, DDiv(DSub(PvRate(bd, fl, DAdd(y, HBP)), PvRate(bd, fl, DSub(y, HBP))), BP), "1E-7",
                                      DMul("1E-7", bd.principal))]
      [] e.op = "macaulay" ->
            [macaulay |-> Near(e.out.v, Macaulay(bd, Flows(bd, e.ref), e.rate, e.ref))]

TraceInit == l = 1 /\ bd = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN bd' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ bd' = IF e.op = "bond" THEN e.bond ELSE bd
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
