-------------------------------- MODULE MCBond --------------------------------
(* A bond held from its dated date to maturity, settlement moving one day   *)
(* at a time: coupons, accrued interest and value.                         *)
EXTENDS Bond, TLC
CONSTANTS Maturities
VARIABLES vb, vs
vars == <<vb, vs>>
B(m, t, n, dcc) == [mat |-> m, tenor |-> t, n |-> n, coupon |-> "6", principal |-> "100", price |-> "99", purchase |-> m,
                    conv |-> "T_PLUS_ZERO_BUSINESS", dcc |-> dcc, adj |-> "FOLLOWING", cal |-> US]
Init == /\ vb \in {B(738000 + 7 * j, t, n, dcc) : j \in 0..(Maturities - 1), t \in {6, 7, 12}, n \in {1, 2, 4},
                                                  dcc \in {"ACTUAL_OVER_ACTUAL", "THIRTY_OVER_THREESIXTY"}}
        /\ vs = DatedDate(vb)
Tick == vs < vb.mat /\ vs' = vs + 1 /\ UNCHANGED vb
Spec == Init /\ [][Tick]_vars
C == CouponDates(vb)
\* whole number of periods back from maturity
Regular == /\ C[Len(C)] = vb.mat
           /\ \A i \in 1..Len(C) : C[i] > DatedDate(vb) /\ C[i] = AddMonths(vb.mat, -(Len(C) - i) * (12 \div vb.n))
           /\ AddMonths(vb.mat, -Len(C) * (12 \div vb.n)) <= DatedDate(vb)
           /\ Len(C) = (vb.tenor * vb.n + 11) \div 12
Between == LET a == Accrued(vb, vs) IN DLe("0", a) /\ DLe(a, CouponAmount(vb))
\* nothing at the dated date, all of the coupon on a coupon date
AtEnds == /\ vs = DatedDate(vb) => DEq(Accrued(vb, vs), "0")
          /\ (\E i \in 1..Len(C) : C[i] = vs) => DClose(Accrued(vb, vs), CouponAmount(vb), "1E-30", "0")
\* it grows, and starts again after a coupon date
Grows == [][IF \E i \in 1..Len(C) : C[i] = vs THEN DLe(Accrued(vb, vs'), DMul("0.2", CouponAmount(vb)))
            ELSE DLe(Accrued(vb, vs), Accrued(vb, vs'))]_vars
\* payments are made on business days, not before they are due
PaidLater == LET all == AllPayments(vb) IN \A i \in 1..Len(all) : IsBusinessDay(US, all[i].d) /\ all[i].d >= all[i].u /\ all[i].d <= all[i].u + 6
\* value falls as the rate rises, and duration and convexity have the sign they should
Decreasing == vs % 40 = 0 /\ FlowsDefined(vb, vs) =>
    LET fl == Flows(vb, vs)
        p(y) == PvRate(vb, fl, y)
    IN (\E i \in 1..Len(fl) : fl[i].t # "0") =>
          DLt(p("0.05"), p("0.04")) /\ DLt(p("0.04"), p("-0.01")) /\ DLt("0", Convexity([vb EXCEPT !.purchase = DatedDate(vb) + 5], fl, "0.04"))
=============================================================================
