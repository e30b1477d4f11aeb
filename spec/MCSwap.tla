-------------------------------- MODULE MCSwap --------------------------------
(* Swaps bought day after day: their accrual periods cover start to end,   *)
(* and the implied rate is the one at which a swap is worth nothing.       *)
EXTENDS Swap, TLC
CONSTANTS Days
VARIABLES vs
S(p, t, n, m, k) == [kind |-> k, purchase |-> p, conv |-> "T_PLUS_TWO_BUSINESS", tenor |-> t, notional |-> "1000", rate |-> "0.04", payer |-> FALSE,
                     cal |-> US, adj |-> "MODIFIED_FOLLOWING", fix |-> "T_MINUS_TWO_BUSINESS", delay |-> "T_PLUS_TWO_BUSINESS",
                     fx |-> [n |-> n, dcc |-> "ACTUAL_OVER_365"], fl |-> [n |-> m, dcc |-> "ACTUAL_OVER_360"]]
Init == vs \in {S(738870, t, n, m, k) : t \in {1, 5, 12, 18}, n \in {1, 2, 4}, m \in {2, 4}, k \in {"term"}}
Tick == vs.purchase < 738870 + Days /\ vs' = [vs EXCEPT !.purchase = @ + 1]
Spec == Init /\ [][Tick]_vs
P == Periods(vs, vs.fx)
Covers == /\ P[1].a = StartOf(vs)
          /\ P[Len(P)].b = Adjust(US, vs.adj, EndOf(vs))
          /\ \A i \in 1..(Len(P) - 1) : P[i].b = P[i + 1].a
          /\ \A i \in 1..Len(P) : P[i].a < P[i].b /\ IsBusinessDay(US, P[i].a) /\ IsBusinessDay(US, P[i].b)
Count == Len(P) = (vs.tenor * vs.fx.n + 11) \div 12 \/ Len(P) = 1 + (vs.tenor * vs.fx.n + 11) \div 12
Whole == DClose(DSum([i \in 1..Len(P) |-> P[i].f]), YearFrac("ACTUAL_OVER_365", P[1].a, P[Len(P)].b), "1E-30", "0")
Q == LET c == [knots |-> <<[d |-> vs.purchase - 3, s |-> "0", v |-> "1"], [d |-> vs.purchase + 1000, s |-> "0", v |-> "0.9"]>>,
               ref |-> [d |-> vs.purchase - 3, s |-> "0"], dcc |-> "ACTUAL_OVER_365", method |-> "linear", left |-> "ERROR", right |-> "ERROR"]
     IN [space |-> "DISCOUNT_FACTOR", c |-> c, p |-> Prepared(c), adj |-> NoAdj]
R == [kind |-> "linear", a |-> "0.03", b |-> "0.00001", from |-> vs.purchase]
Fair == vs.purchase % 5 = 0 =>
        LET i == Implied(vs, Q, R)
        IN DClose(SwapPv(vs, Q, FixedLeg([vs EXCEPT !.rate = i]), FloatLeg(vs, R)), "0", "0", "1E-25")
\* compounding a constant daily rate gives at least the rate
AtLeast == vs.purchase % 5 = 0 => DLe("0.03", Compounded([kind |-> "const", a |-> "0.03"], <<>>, US, P[1].a, P[1].b))
=============================================================================
