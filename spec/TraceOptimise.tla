----------------------------- MODULE TraceOptimise -----------------------------
(* Conformance of the portfolio optimiser.  State: means and covariances.  *)
(* The minimum is found by iteration: objectives agree to a thousandth.     *)
EXTENDS TraceBase, Optimise

VARIABLES l, mu, cov
vars == <<l, mu, cov>>

Ones == [i \in 1..Len(mu) |-> "1"]
Zeros == [i \in 1..Len(mu) |-> "0"]
\* minimum variance at a return; maximum utility
MinVar(r, short) == Best([i \in 1..Len(cov) |-> [j \in 1..Len(cov) |-> DMul("2", cov[i][j])]], Zeros, <<Ones, mu>>, <<"1", r>>, short)
MaxUtil(k, short) == Best([i \in 1..Len(cov) |-> [j \in 1..Len(cov) |-> DMul(k, cov[i][j])]], mu, <<Ones>>, <<"1">>, short)

Var(w) == QuadForm(cov, w)
Util(k, w) == DSub(DDot(mu, w), DDiv(DMul(k, Var(w)), 2))

IsPortfolio(w, short) ==
    /\ Len(w) = Len(mu)
    /\ DClose(DSum(w), "1", "0", "1E-8")
    /\ short \/ \A i \in 1..Len(w) : DLe("-1E-7", w[i])
OptimalVar(w, r, short) ==
    LET best == Var(MinVar(r, short))
    IN DLe(DAbs(DSub(Var(w), best)), DAdd("1E-12", DMul("1E-3", best)))

Clauses(e) ==
    CASE ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "market" -> [means |-> e.out.v.mu = e.mu, covariances |-> e.out.v.cov = e.cov]
      [] e.op = "min_variance" ->
            [weights |-> IsPortfolio(e.out.v, e.short),
             return |-> DClose(DDot(mu, e.out.v), e.target, "0", "1E-8"),
             minimal |-> OptimalVar(e.out.v, e.target, e.short)]
      [] e.op = "frontier" ->
            LET v == e.out.v
            IN [count |-> Len(v.returns) = Len(v.vols) /\ Len(v.returns) = Len(v.weights),
                first |-> DClose(v.returns[1], e.lower, "0", "1E-9"),
                steps |-> \A i \in 1..(Len(v.returns) - 1) : DClose(DSub(v.returns[i + 1], v.returns[i]), e.step, "0", "1E-9"),
                reaches |-> LET last == v.returns[Len(v.returns)]
                            IN DLe(e.upper, DAdd(last, DMul(e.step, "1.000001"))) /\ DLe(last, DAdd(e.upper, DMul(e.step, "1.000001"))),
                volatilities |-> \A i \in 1..Len(v.vols) : DClose(v.vols[i], DSqrt(Var(v.weights[i])), "1E-9", "1E-12"),
                portfolios |-> \A i \in 1..Len(v.weights) :
                    (e.short \/ DLe(v.returns[i], e.max)) =>
                        /\ IsPortfolio(v.weights[i], e.short)
                        /\ DClose(DDot(mu, v.weights[i]), v.returns[i], "0", "1E-8")
                        /\ OptimalVar(v.weights[i], v.returns[i], e.short)]
      [] e.op = "max_utility" ->
            LET k == DMul(e.wealth, e.param)
                best == Util(k, MaxUtil(k, e.short))
            IN [weights |-> IsPortfolio(e.out.v, e.short),
                maximal |-> DLe(DAbs(DSub(Util(k, e.out.v), best)), DAdd("1E-9", DMul("1E-4", DAbs(best))))]
      [] e.op = "sharpe" -> [sharpe |-> Len(e.out.v) = Len(e.returns) /\ \A i \in 1..Len(e.returns) :
                                Near(e.out.v[i], DDiv(DSub(e.returns[i], e.riskfree), e.vols[i]))]

TraceInit == l = 1 /\ mu = <<>> /\ cov = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN mu' = <<>> /\ cov' = <<>>
          ELSE IF e.op = "market" THEN mu' = e.mu /\ cov' = e.cov /\ Report(l, Failing(Clauses(e)))
          ELSE Report(l, Failing(Clauses(e))) /\ UNCHANGED <<mu, cov>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
