--------------------------------- MODULE Bond ---------------------------------
(***************************************************************************)
(* Fixed-rate bonds.  A bond is a record                                   *)
(*   mat, tenor (months), n (payments a year, 0: zero coupon), coupon (%), *)
(*   principal, price (clean, per 100), purchase, conv (settlement), dcc,  *)
(*   adj (business-day adjustment), cal (holiday calendar).                *)
(***************************************************************************)
EXTENDS Schedule, Holidays, FiniteSets

DatedDate(b) == AddMonths(b.mat, -b.tenor)

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* back from maturity, every date after the dated date
CouponDates(b) ==
    IF b.n = 0 THEN <<>>
    ELSE Reverse(Increments(b.mat, DatedDate(b) + 1, [m |-> -(12 \div b.n), d |-> 0], FALSE, 1000))
CouponAmount(b) == IF b.n = 0 THEN "0" ELSE DDiv(DMul(b.principal, b.coupon), 100 * b.n)

Adj(b, o) == Adjust(b.cal, b.adj, o)

\* everything it pays: [u unadjusted date, d payment date, v amount]
Coupons(b) == LET c == CouponDates(b) IN [i \in 1..Len(c) |-> [u |-> c[i], d |-> Adj(b, c[i]), v |-> CouponAmount(b)]]
Principal(b) == [u |-> b.mat, d |-> Adj(b, b.mat), v |-> b.principal]
AllPayments(b) == Append(Coupons(b), Principal(b))

SettlementAt(b, ref) == Settlement(b.cal, b.conv, ref)

\* the holder who buys at ref receives what is due on or after settlement
IsReceived(b, u, ref) == u >= SettlementAt(b, ref)

\* interest accrued from the last coupon date before settlement (or the dated date) as a fraction of its period;
\* c: the coupon dates
AccruedDefined(b, settle) == b.n = 0 \/ (settle >= DatedDate(b) /\ settle <= b.mat)
Accrued(b, settle) ==
    IF b.n = 0 THEN "0"
    ELSE LET c == CouponDates(b)
             k == Cardinality({i \in 1..Len(c) : c[i] < settle})
             from == IF k = 0 THEN DatedDate(b) ELSE c[k]
             to == c[k + 1]
         IN DMul(CouponAmount(b), DDiv(YearFrac(b.dcc, from, settle), YearFrac(b.dcc, from, to)))

FullPrice(b, ref) == DAdd(b.price, DMul("100", DDiv(Accrued(b, SettlementAt(b, ref)), b.principal)))
Target(b, ref) == DDiv(DMul(FullPrice(b, ref), b.principal), 100)

\* [t, v]: time from ref in years and amount of every payment received
Flows(b, ref) ==
    LET all == AllPayments(b)
        s == SettlementAt(b, ref)
        keep == SelectSeq(all, LAMBDA p : p.u >= s)
    IN [i \in 1..Len(keep) |-> [t |-> YearFrac(b.dcc, ref, keep[i].d), v |-> keep[i].v]]
FlowsDefined(b, ref) == LET s == SettlementAt(b, ref)
                            all == AllPayments(b)
                        IN \A i \in 1..Len(all) : all[i].u >= s => all[i].d >= ref

\* discounting at rate y compounded n times a year
Factor(b, y, t) == DPow(DAdd("1", DDiv(y, b.n)), DNeg(DMul(b.n, t)))
PvRate(b, fl, y) == DSum([i \in 1..Len(fl) |-> DMul(fl[i].v, Factor(b, y, fl[i].t))])

BP == "0.0001"
HBP == "0.00005"
\* minus the relative slope over one basis point
Duration(b, fl, y) == DNeg(DDiv(DDiv(DSub(PvRate(b, fl, DAdd(y, HBP)), PvRate(b, fl, DSub(y, HBP))), BP), Target(b, b.purchase)))
\* the relative second difference
Convexity(b, fl, y) ==
    DDiv(DDiv(DAdd(DSub(PvRate(b, fl, DAdd(y, BP)), DMul("2", PvRate(b, fl, y))), PvRate(b, fl, DSub(y, BP))), "0.00000001"),
         Target(b, b.purchase))
Macaulay(b, fl, y, ref) ==
    DDiv(DSum([i \in 1..Len(fl) |-> DMul(fl[i].t, DMul(fl[i].v, Factor(b, y, fl[i].t)))]), Target(b, ref))
=============================================================================
