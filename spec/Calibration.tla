------------------------------ MODULE Calibration ------------------------------
(***************************************************************************)
(* Calibration in two stages: the volatility parameters to yield           *)
(* volatilities, then, these kept, shape and state to bond prices.         *)
(* Parameters: kind, vol, shape, state (sequences).                        *)
(* Market: seconds-exact times ts to maturity and the values there.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Dec
AF == INSTANCE Affine

\* "one": vol = <<volatility, reversion speed>>; "doubly": <<long speed, long vol, short speed, short vol, correlation>>
ModelOf(p) == IF p.kind = "one" THEN AF!OneFactor(p.vol[2], p.shape[1], p.vol[1])
              ELSE AF!Doubly(p.vol[1], p.vol[3], p.shape[1], p.vol[2], p.vol[4], p.vol[5])
Speeds(p) == IF p.kind = "one" THEN <<p.vol[2]>> ELSE <<p.vol[1], p.vol[3]>>

Vol(p, t) == LET m == ModelOf(p) IN DSqrt(DMax("0", AF!YieldCov(m, t, t)))
BondPrice(p, t) == AF!Price(ModelOf(p), t, p.state)

Distance(s, t) == DSqrt(DSum([i \in 1..Len(s) |-> DMul(DSub(s[i], t[i]), DSub(s[i], t[i]))]))
Values(pts) == AF!Force([i \in 1..Len(pts) |-> pts[i].v])
VolLoss(p, pts) == Distance(AF!Force([i \in 1..Len(pts) |-> Vol(p, pts[i].t)]), Values(pts))
PriceLoss(p, pts) == Distance(AF!Force([i \in 1..Len(pts) |-> BondPrice(p, pts[i].t)]), Values(pts))
=============================================================================
