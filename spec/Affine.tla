--------------------------------- MODULE Affine ---------------------------------
(***************************************************************************)
(* Gaussian affine short-rate models:                                       *)
(*   dX = K (theta - X) dt + S dW,   C = S S',   r = mu + g . X             *)
(* A model: [K, theta, C, g, mu].  The price at state x of one unit paid    *)
(* after the time t is exp(A(t) + B(t) . x), with                           *)
(*   B' = -g - K' B,     A' = -mu + B . K theta + 1/2 B . C B.              *)
(* Everything below follows from the matrix exponential E(t) = exp(-K t),   *)
(* no eigenvalue is looked at.                                              *)
(***************************************************************************)
EXTENDS Dec

Force(v) == v \o <<>>
Mat(a) == Force([i \in 1..Len(a) |-> Force(a[i])])
Vec(a) == Force([i \in 1..Len(a) |-> a[i][1]])
Col(v) == Force([i \in 1..Len(v) |-> <<v[i]>>])
MV(a, v) == Vec(MMul(a, Col(v)))
T(a) == Mat(MTranspose(a))
VAdd(a, b) == Force([i \in 1..Len(a) |-> DAdd(a[i], b[i])])
VSub(a, b) == Force([i \in 1..Len(a) |-> DSub(a[i], b[i])])
VScale(c, a) == Force([i \in 1..Len(a) |-> DMul(c, a[i])])
VNeg(a) == VScale("-1", a)
Quad(v, c, w) == DDot(v, MV(c, w))

Eye(m) == Mat(MIdent(Len(m.K)))
E(m, t) == MExp(Mat(MScale(DNeg(t), m.K)))
\* integral of E over (0, t)
J(m, t) == MSolve(m.K, Mat(MSub(Eye(m), E(m, t))))
H(m) == Vec(MSolve(T(m.K), Col(m.g)))

\* covariance of X at time t: integral of E C E' over (0, t)
VShort(m, t) ==
    LET n == Len(m.K)
        \* exp of [[-K, C], [0, K']] t is [[E, G], [0, E'^-1]] and V = G E'
        big == Force([i \in 1..(2 * n) |-> Force([j \in 1..(2 * n) |->
                  DMul(t, IF i <= n /\ j <= n THEN DNeg(m.K[i][j])
                          ELSE IF i <= n THEN m.C[i][j - n]
                          ELSE IF j <= n THEN "0" ELSE m.K[j - n][i - n])])])
        x == MExp(big)
        G == Force([i \in 1..n |-> Force([j \in 1..n |-> x[i][n + j]])])
    IN MMul(G, T(E(m, t)))
\* over a long time, that of its halves: E'^-1 would outgrow the digits
Speed(m) == DSum([i \in 1..Len(m.K) |-> DSum([j \in 1..Len(m.K) |-> DAbs(m.K[i][j])])])
RECURSIVE V(_, _)
V(m, t) ==
    IF DLe(DMul(Speed(m), DAbs(t)), "8") THEN VShort(m, t)
    ELSE LET s == DDiv(t, "2")
             v == V(m, s)
             e == E(m, s)
             w == MMul(MMul(e, v), T(e))
         IN Force([i \in 1..Len(v) |-> Force([j \in 1..Len(v) |-> DAdd(v[i][j], w[i][j])])])

B(m, t) == LET h == H(m) IN VSub(MV(T(E(m, t)), h), h)
A(m, t) ==
    LET h == H(m)
        e == E(m, t)
    IN DAdd(DAdd(DNeg(DMul(m.mu, t)), DSub(DDot(h, VSub(m.theta, MV(e, m.theta))), DMul(t, DDot(m.g, m.theta)))),
            DMul("0.5", DAdd(DSub(Quad(h, V(m, t), h), DMul("2", DDot(h, MV(J(m, t), MV(m.C, h))))), DMul(t, Quad(h, m.C, h)))))
DB(m, t) == VNeg(MV(T(E(m, t)), m.g))
DA(m, t) == LET b == B(m, t) IN DAdd(DSub(DDot(b, MV(m.K, m.theta)), m.mu), DMul("0.5", Quad(b, m.C, b)))

ShortRate(m, x) == DAdd(m.mu, DDot(m.g, x))
LogPrice(m, t, x) == DAdd(A(m, t), DDot(B(m, t), x))
Price(m, t, x) == DExp(LogPrice(m, t, x))
Yield(m, t, x) == DDiv(DNeg(LogPrice(m, t, x)), t)
Forward(m, t, x) == DNeg(DAdd(DA(m, t), DDot(DB(m, t), x)))
MeanState(m, t, x) == VAdd(MV(E(m, t), VSub(x, m.theta)), m.theta)
AverageState(m, t, x) == VAdd(VScale(DDiv("1", t), MV(J(m, t), VSub(x, m.theta))), m.theta)
MeanRate(m, t, x) == ShortRate(m, MeanState(m, t, x))
AverageRate(m, t, x) == ShortRate(m, AverageState(m, t, x))
RateVariance(m, t) == Quad(m.g, V(m, t), m.g)
PriceSlope(m, t, x) == DMul(Price(m, t, x), DAdd(DA(m, t), DDot(DB(m, t), x)))
StateSlopes(m, t, x) == VScale(Price(m, t, x), B(m, t))
YieldCov(m, t, u) == DDiv(Quad(B(m, t), m.C, B(m, u)), DMul(t, u))
ForwardCov(m, t, u) == Quad(DB(m, t), m.C, DB(m, u))
PriceConvexity(m, t, x) == DMul(DMul("-0.5", Price(m, t, x)), Quad(B(m, t), m.C, B(m, t)))
YieldConvexity(m, t, x) == DSub(Yield(m, t, x), AverageRate(m, t, x))

\* portfolios of zero-coupon bonds: weights w, times ts
Exposure(m, w, ts, x) == LET s == Force([k \in 1..Len(ts) |-> VScale(w[k], StateSlopes(m, ts[k], x))])
                         IN Force([i \in 1..Len(x) |-> DSum([k \in 1..Len(ts) |-> s[k][i]])])
GrossExposure(m, w, ts, x) == LET s == Force([k \in 1..Len(ts) |-> VScale(w[k], StateSlopes(m, ts[k], x))])
                              IN DSum([k \in 1..Len(ts) |-> DSum([i \in 1..Len(x) |-> DAbs(s[k][i])])])
Curvatures(m, w, ts, x) == Force([k \in 1..Len(ts) |-> DMul(DMul("0.5", DMul(w[k], Price(m, ts[k], x))), Quad(B(m, ts[k]), m.C, B(m, ts[k])))])
Riskless(m, ts, x) ==   \* the weights: no exposure, summing to one
    LET n == Len(x)
        s == Force([k \in 1..Len(ts) |-> StateSlopes(m, ts[k], x)])
        rows == Force([i \in 1..(n + 1) |-> Force([k \in 1..(n + 1) |-> IF i <= n THEN s[k][i] ELSE "1"])])
        rhs == Force([i \in 1..(n + 1) |-> IF i <= n THEN <<"0">> ELSE <<"1">>])
    IN Vec(MSolve(rows, rhs))

----------------------------------------------------------------------------
(* the named models, from their parameters *)
CovOf(sd, corr) == Force([i \in 1..Len(sd) |-> Force([j \in 1..Len(sd) |-> DMul(DMul(sd[i], sd[j]), corr[i][j])])])
OneFactor(k, level, vol) == [K |-> << <<k>> >>, theta |-> <<level>>, C |-> << <<DMul(vol, vol)>> >>, g |-> <<"1">>, mu |-> "0"]
\* states: long-term level, short rate
Doubly(long, short, level, longvol, shortvol, rho) ==
    [K |-> << <<long, "0">>, <<DNeg(short), short>> >>, theta |-> <<level, level>>,
     C |-> CovOf(<<longvol, shortvol>>, << <<"1", rho>>, <<rho, "1">> >>), g |-> <<"0", "1">>, mu |-> "0"]
\* states: long, medium, short; correlations long-medium, long-short, medium-short
Trebly(kl, km, ks, level, vl, vm, vs, lm, ls, ms) ==
    [K |-> << <<kl, "0", "0">>, <<DNeg(km), km, "0">>, <<"0", DNeg(ks), ks>> >>, theta |-> <<level, level, level>>,
     C |-> CovOf(<<vl, vm, vs>>, << <<"1", lm, ls>>, <<lm, "1", ms>>, <<ls, ms, "1">> >>), g |-> <<"0", "0", "1">>, mu |-> "0"]
\* states: price of risk, medium level (drifting up by its volatility times the price of risk), short rate
PricedRisk(kp, km, ks, riskmean, level, vp, vm, vs, pm, ps, ms) ==
    LET up == DAdd(level, DDiv(DMul(vm, riskmean), km))
    IN [K |-> << <<kp, "0", "0">>, <<DNeg(vm), km, "0">>, <<"0", DNeg(ks), ks>> >>, theta |-> <<riskmean, up, up>>,
        C |-> CovOf(<<vp, vm, vs>>, << <<"1", pm, ps>>, <<pm, "1", ms>>, <<ps, ms, "1">> >>), g |-> <<"0", "0", "1">>, mu |-> "0"]
=============================================================================
