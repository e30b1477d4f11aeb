------------------------------ MODULE TraceAffine ------------------------------
(* Conformance of affine short-rate models: their paths (TraceProcess) and  *)
(* prices.  A model object carries in md.af its Affine parameters and in    *)
(* md.vol its recorded volatility matrix, which the rows of its state       *)
(* variables' Euler steps are made of.                                      *)
EXTENDS TraceProcess

AF == INSTANCE Affine

\* purchase date of an event, and the time from there to its maturities
From(e) == IF e.from.set THEN e.from.t ELSE md.m.start
Tau(e, t) == Accrual(md.m.dcc, From(e), t)
Taus(e) == Force([k \in 1..Len(e.to) |-> Tau(e, e.to[k])])
HasState(e) == pa.set /\ InRange(md.m, From(e))
StateKnown(e) == AtOk(pa.grid, md.m.dcc, From(e))
StateAt(e) == At(pa.path, pa.grid, md.m.dcc, From(e))
Later(e) == \A k \in 1..Len(e.to) : DtLt(From(e), e.to[k])
AtDay(e) == \A k \in 1..Len(e.to) : DtEq(From(e), e.to[k])

NeedState == {"price", "yield", "forward", "mean", "rate_mean", "rate_avg", "price_conv", "yield_conv", "dprice_dx", "dprice_dt", "riskless"}
NeedLater == {"yield", "rate_avg", "price_conv", "yield_conv", "yield_vol", "yield_cov", "riskless"}
\* differences of instantaneous forwards at the day itself are left open
Open(e) == e.op \in {"fwd_cov", "fwd_vol"} /\ ~Later(e)
AffineOps == NeedState \cup NeedLater \cup {"covariance", "variance", "fwd_cov", "fwd_vol", "state_vector", "self_convexity", "limit", "expansion"}

Scaled(a, b, s) == DClose(a, b, "1E-8", DMul("1E-10", s))
MScaled(a, b, s) == /\ Len(a) = Len(b)
                    /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Scaled(a[i][j], b[i][j], s)
VScaled(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Scaled(a[i], b[i], s)
Trace1(c) == DSum([i \in 1..Len(c) |-> c[i][i]])
Same1(a, b) == DClose(a, b, "1E-8", "1E-10")
VSame1(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same1(a[i], b[i])

Priced(e, m, v) ==
    LET t == Taus(e)
    IN CASE e.op = "price" -> [price |-> Same1(v, AF!Price(m, t[1], StateAt(e)))]
         [] e.op = "yield" -> [yield |-> Same1(v, AF!Yield(m, t[1], StateAt(e)))]
         [] e.op = "forward" -> [forward |-> Same1(v, AF!Forward(m, t[1], StateAt(e)))]
         [] e.op = "mean" -> [mean |-> VSame1(v, AF!MeanState(m, t[1], StateAt(e)))]
         [] e.op = "rate_mean" -> [mean |-> Same1(v, AF!MeanRate(m, t[1], StateAt(e)))]
         [] e.op = "rate_avg" -> [average |-> Same1(v, AF!AverageRate(m, t[1], StateAt(e)))]
         [] e.op = "yield_conv" -> [convexity |-> Same1(v, AF!YieldConvexity(m, t[1], StateAt(e)))]
         [] e.op = "price_conv" -> [convexities |-> LET w == Force([k \in 1..Len(t) |-> AF!PriceConvexity(m, t[k], StateAt(e))])
                                                    IN VScaled(v, w, DSum([k \in 1..Len(t) |-> DAbs(w[k])]))]
         [] e.op = "dprice_dx" -> [slopes |-> VSame1(v, AF!StateSlopes(m, t[1], StateAt(e)))]
         [] e.op = "dprice_dt" -> [slope |-> Same1(v, AF!PriceSlope(m, t[1], StateAt(e)))]
         [] e.op = "covariance" -> LET c == AF!V(m, t[1]) IN [covariance |-> MScaled(v, c, Trace1(c))]
         [] e.op = "variance" -> LET c == AF!RateVariance(m, t[1]) IN [variance |-> Scaled(v, c, DMul(DDot(m.g, m.g), Trace1(AF!V(m, t[1]))))]
         [] e.op = "yield_vol" -> LET c == AF!YieldCov(m, t[1], t[1]) IN [volatility |-> DLe("0", v) /\ DClose(DMul(v, v), c, "1E-7", DMul("1E-10", DMul(DDot(m.g, m.g), Trace1(m.C))))]
         [] e.op = "fwd_vol" -> LET c == AF!ForwardCov(m, t[1], t[1]) IN [volatility |-> DLe("0", v) /\ DClose(DMul(v, v), c, "1E-7", DMul("1E-10", DMul(DDot(m.g, m.g), Trace1(m.C))))]
         [] e.op = "yield_cov" -> LET c == Force([i \in 1..Len(t) |-> Force([j \in 1..Len(t) |-> AF!YieldCov(m, t[i], t[j])])]) IN [covariances |-> MScaled(v, c, Trace1(c))]
         [] e.op = "fwd_cov" -> LET c == Force([i \in 1..Len(t) |-> Force([j \in 1..Len(t) |-> AF!ForwardCov(m, t[i], t[j])])]) IN [covariances |-> MScaled(v, c, Trace1(c))]
         [] e.op = "riskless" ->
              LET x == StateAt(e)
                  big == DSum([k \in 1..Len(v.weights) |-> DAbs(v.weights[k])])    \* a weight is no more exact than that times 1e-15
                  g == DAdd(AF!GrossExposure(m, v.weights, t, x), DMul(DMul("1E-5", big), AF!GrossExposure(m, [k \in 1..Len(t) |-> "1"], t, x)))
                  ex == AF!Exposure(m, v.weights, t, x)
                  c == AF!Curvatures(m, v.weights, t, x)
                  c1 == AF!Curvatures(m, [k \in 1..Len(t) |-> "1"], t, x)
                  size == DAdd(DSum([k \in 1..Len(c) |-> DAbs(c[k])]), DMul(DMul("1E-5", big), DSum([k \in 1..Len(c) |-> DAbs(c1[k])])))
              IN [invested |-> Len(v.weights) = Len(t) /\ DClose(DSum(v.weights), "1", "1E-9", DMul("1E-12", DSum([k \in 1..Len(v.weights) |-> DAbs(v.weights[k])]))),
                  unexposed |-> \A i \in 1..Len(x) : DLe(DAbs(ex[i]), DMul("1E-9", g)),
                  convexity |-> DClose(v.convexity, DSum(c), "1E-8", DMul("1E-10", size))]

Clauses2(e) ==
    CASE e.op \notin AffineOps -> Clauses(e)
      [] e.op = "state_vector" -> [stored |-> Ok(e) /\ VNear(e.out.v, e.x)]
      [] e.op = "limit" -> [limit |-> Ok(e) /\ Same1(e.out.v, DNeg(DDiv(md.af.C[1][1], DMul("2", DMul(md.af.K[1][1], md.af.K[1][1])))))]
      [] e.op = "self_convexity" ->   \* from the start only, no path needed
            LET t == Tau(e, e.to[1])
            IN IF ~Later(e) THEN [refused |-> ~Ok(e)]
               ELSE [convexity |-> Ok(e) /\ Same1(e.out.v, AF!YieldConvexity(md.af, t, md.af.theta))]
      [] e.op \in NeedState /\ ~HasState(e) -> [refused |-> ~Ok(e)]
      [] e.op \in NeedState /\ ~StateKnown(e) -> [undetermined |-> TRUE]
      [] e.op = "rate_avg" /\ ~Later(e) -> [refused |-> ~Ok(e) \/ ~IsDec(e.out.v)]
      [] e.op \in NeedLater /\ ~Later(e) -> [refused |-> ~Ok(e)]
      [] Open(e) -> [open |-> TRUE]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] OTHER -> Priced(e, md.af, e.out.v)

\* the parameters of a named model are those its definition makes of what it was given
Defined(n) ==
    LET p == n.p
    IN CASE n.model = "doubly" -> AF!Doubly(p[1], p[2], p[3], p[4], p[5], p[6])
         [] n.model = "trebly" -> AF!Trebly(p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10])
         [] n.model = "priced" -> AF!PricedRisk(p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11])
Named(m) == "named" \in DOMAIN m
\* an object with its parameters
Model(m) == IF ~Named(m) THEN m
            ELSE LET d == Defined(m.named)
                     kt == AF!MV(d.K, d.theta)
                 IN [m EXCEPT !.af = d, !.rows = Force([i \in 1..m.dim |-> [a |-> kt[i], lin |-> AF!VNeg(d.K[i]), b |-> "0", s |-> m.vol[i], u |-> Zeros(m.dim)]]),
                              !.tr = [c0 |-> "0", c |-> d.g, q |-> "0"]]

\* a model's recorded volatility matrix is a root of its covariance
ModelClauses(e) ==
    IF e.op \in {"object", "parameters"} /\ Ok(e)
    THEN [volatility |-> LET c == Model(e.md).af.C IN MScaled(MMul(e.md.vol, MTranspose(e.md.vol)), c, Trace1(c))] @@ Clauses2(e)
    ELSE Clauses2(e)

AffineNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN md' = <<>> /\ pa' = None /\ ig' = None /\ dc' = None /\ zs' = <<>>
          ELSE /\ Report(l, Failing(ModelClauses(e)))
               /\ md' = IF e.op \in {"object", "parameters"} THEN Model(e.md) ELSE IF e.op = "set_dt" THEN [md EXCEPT !.inc = e.inc] ELSE md
               /\ pa' = AfterPa(e) /\ ig' = AfterIg(e) /\ dc' = AfterDc(e) /\ zs' = Learn(e)
TraceSpec2 == TraceInit /\ [][AffineNext]_vars
=============================================================================
