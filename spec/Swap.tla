--------------------------------- MODULE Swap ---------------------------------
(***************************************************************************)
(* Fixed-to-floating swaps and one-month futures.  A swap is a record      *)
(*   kind ("term", "ois"), purchase, conv, tenor (months), notional, rate, *)
(*   payer (BOOLEAN: pays fixed), cal, adj, fix and delay (settlement      *)
(*   conventions), and for each leg n (payments a year) and dcc.           *)
(* A rate is a function of dates: AdjAt of its record, or a curve          *)
(*   [kind |-> "curve", c].                                                *)
(***************************************************************************)
EXTENDS Cashflow, Schedule, Holidays

StartOf(s) == Settlement(s.cal, s.conv, s.purchase)
EndOf(s) == AddMonths(StartOf(s), s.tenor)

LegOk(g) == g.n \in {1, 2, 4}

\* the start, then the end minus whole periods, in order
Unadjusted(s, g) ==
    LET back == Increments(EndOf(s), StartOf(s) + 1, [m |-> -(12 \div g.n), d |-> 0], FALSE, 1000)
        k == Len(back)
    IN [i \in 1..(k + 1) |-> IF i = 1 THEN StartOf(s) ELSE back[k + 2 - i]]

\* accrual periods [a, b, f]
Periods(s, g) ==
    LET u == Unadjusted(s, g)
        x == [i \in 1..Len(u) |-> Adjust(s.cal, s.adj, u[i])]
    IN [i \in 1..(Len(u) - 1) |-> [a |-> x[i], b |-> x[i + 1], f |-> YearFrac(g.dcc, x[i], x[i + 1])]]

PaidOn(s, p) == Settlement(s.cal, s.delay, p.b)

FixedLeg(s) == LET ps == Periods(s, s.fx)
               IN CashOf([i \in 1..Len(ps) |-> [d |-> PaidOn(s, ps[i]), has |-> TRUE, v |-> DMul(DMul(ps[i].f, s.notional), s.rate)]])

----------------------------------------------------------------------------
(* rates *)
RatePrepared(r) == IF r.kind = "curve" THEN Prepared(r.c) ELSE <<>>
RateDefined(r, o) == r.kind # "curve" \/ Defined(r.c, Midnight(o))
RateAt(r, rp, o) == IF r.kind = "curve" THEN Value(r.c, rp, Midnight(o), NoAdj) ELSE AdjAt(r, o)

RECURSIVE BusinessSeq(_, _, _)
\* the business days of the closed interval, in order
BusinessSeq(cal, a, b) == IF a > b THEN <<>>
                          ELSE IF IsBusinessDay(cal, a) THEN <<a>> \o BusinessSeq(cal, a + 1, b) ELSE BusinessSeq(cal, a + 1, b)

\* daily rates compounded from business day to business day, as a simple annual rate (act/360)
RECURSIVE Growth(_, _, _, _)
Growth(r, rp, ds, i) ==
    IF i >= Len(ds) THEN "1"
    ELSE DMul(DAdd("1", DMul(RateAt(r, rp, ds[i]), YearFrac("ACTUAL_OVER_360", ds[i], ds[i + 1]))), Growth(r, rp, ds, i + 1))
Compounded(r, rp, cal, a, b) ==
    LET ds == BusinessSeq(cal, a, b)
    IN DDiv(DSub(Growth(r, rp, ds, 1), "1"), YearFrac("ACTUAL_OVER_360", ds[1], ds[Len(ds)]))

Fixing(s, p) == Settlement(s.cal, s.fix, p.a)
FixingsDefined(s, r, ps) ==
    r.kind # "curve"
    \/ \A i \in 1..Len(ps) :
          IF s.kind = "term" THEN RateDefined(r, Fixing(s, ps[i]))
          ELSE \A o \in ps[i].a..(ps[i].b - 1) : IsBusinessDay(s.cal, o) => RateDefined(r, o)
PeriodRate(s, r, rp, p) == IF s.kind = "term" THEN RateAt(r, rp, Fixing(s, p)) ELSE Compounded(r, rp, s.cal, p.a, p.b)

FloatDefined(s, r) == FixingsDefined(s, r, Periods(s, s.fl))
FloatLeg(s, r) ==
    LET ps == Periods(s, s.fl)
        rp == RatePrepared(r)
    IN CashOf([i \in 1..Len(ps) |-> [d |-> PaidOn(s, ps[i]), has |-> TRUE, v |-> DMul(DMul(ps[i].f, s.notional), PeriodRate(s, r, rp, ps[i]))]])

----------------------------------------------------------------------------
(* values on a discount curve q *)
SwapPv(s, q, fixed, float) == IF s.payer THEN DSub(Pv(q, float), Pv(q, fixed)) ELSE DSub(Pv(q, fixed), Pv(q, float))

\* the fixed leg per unit of rate
Annuity(s) == FixedLeg([s EXCEPT !.rate = "1"])
ImpliedDefined(s, q, r) == /\ FloatDefined(s, r)
                           /\ PvDefined(q, FloatLeg(s, r)) /\ PvDefined(q, Annuity(s))
                           /\ Due(q, Annuity(s)) # {}
Implied(s, q, r) == DDiv(Pv(q, FloatLeg(s, r)), Pv(q, Annuity(s)))

----------------------------------------------------------------------------
(* one-month futures [month, year, cal, dcc]: the average of the rate over the month's business days, each for *)
(* the time to the next one of the month                                                                       *)
MonthDays(x) == BusinessSeq(x.cal, Ord(x.year, x.month, 1), AddMonths(Ord(x.year, x.month, 1), 1) - 1)
SettlementRate(x, r) ==
    LET ds == MonthDays(x)
        rp == RatePrepared(r)
        w == [i \in 1..(Len(ds) - 1) |-> YearFrac(x.dcc, ds[i], ds[i + 1])]
    IN DDiv(DDot(w, [i \in 1..(Len(ds) - 1) |-> RateAt(r, rp, ds[i])]), DSum(w))
SettlementRateDefined(x, r) == \A o \in {MonthDays(x)[i] : i \in 1..(Len(MonthDays(x)) - 1)} : RateDefined(r, o)
=============================================================================
