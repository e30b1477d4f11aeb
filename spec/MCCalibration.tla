----------------------------- MODULE MCCalibration -----------------------------
(* Two-stage calibration as a search: candidates are tried in any order, the best so far is kept.  Whatever is tried, the      *)
(* result fits no worse than the parameters started from, a finished stage's fit is what its loss says, and the second stage   *)
(* leaves the fit of the first alone, since yield volatilities do not depend on shape and state.                               *)
EXTENDS Calibration, TLC

CONSTANT Tries
VARIABLES given, best, stage, n
vars == <<given, best, stage, n>>

Vols == {<<v, k>> : v \in {"0.01", "0.02"}, k \in {"0.1", "0.4"}}
Shapes == {<<m>> : m \in {"0.02", "0.05"}}
States == {<<r>> : r \in {"0.01", "0.06"}}
Times == <<"1", "5">>
Truth == [kind |-> "one", vol |-> <<"0.0125", "0.2">>, shape |-> <<"0.04">>, state |-> <<"0.03">>]
VolPts == AF!Force([i \in 1..2 |-> [t |-> Times[i], v |-> Vol(Truth, Times[i])]])
PricePts == AF!Force([i \in 1..2 |-> [t |-> Times[i], v |-> BondPrice(Truth, Times[i])]])

Init == /\ given \in [kind : {"one"}, vol : Vols, shape : Shapes, state : States]
        /\ best = given /\ stage = "volatility" /\ n = 0
TryVol(v) == LET c == [best EXCEPT !.vol = v]
             IN /\ stage = "volatility" /\ n < Tries
                /\ best' = IF DLt(VolLoss(c, VolPts), VolLoss(best, VolPts)) THEN c ELSE best
                /\ n' = n + 1 /\ UNCHANGED <<given, stage>>
TryShape(s, x) == LET c == [best EXCEPT !.shape = s, !.state = x]
                  IN /\ stage = "shape" /\ n < Tries
                     /\ best' = IF DLt(PriceLoss(c, PricePts), PriceLoss(best, PricePts)) THEN c ELSE best
                     /\ n' = n + 1 /\ UNCHANGED <<given, stage>>
NextStage == /\ stage # "done" /\ n > 0
             /\ stage' = IF stage = "volatility" THEN "shape" ELSE "done"
             /\ n' = 0 /\ UNCHANGED <<given, best>>
Next == (\E v \in Vols : TryVol(v)) \/ (\E s \in Shapes, x \in States : TryShape(s, x)) \/ NextStage
Spec == Init /\ [][Next]_vars

NoWorseVols == DLe(VolLoss(best, VolPts), VolLoss(given, VolPts))
NoWorsePrices == DLe(PriceLoss(best, PricePts), PriceLoss([given EXCEPT !.vol = best.vol], PricePts))
Exact == DEq(VolLoss(Truth, VolPts), "0") /\ DEq(PriceLoss(Truth, PricePts), "0")
\* yield volatilities depend on the volatility parameters only
Factorised == NearT(VolLoss(best, VolPts), VolLoss([given EXCEPT !.vol = best.vol], VolPts), "1E-12")
StageOrder == [][stage = "shape" => best'.vol = best.vol]_vars
=============================================================================
