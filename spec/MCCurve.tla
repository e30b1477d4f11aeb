------------------------------- MODULE MCCurve -------------------------------
(* Curves over all small sets of knots and values: the interpolation goes  *)
(* through the knots, reproduces what its kind reproduces, stays within    *)
(* bounds, and a reset gives the curve a new construction would.  A date   *)
(* ticks over the curve.                                                   *)
EXTENDS Curve, TLC, FiniteSets
CONSTANTS Gap, Vals
VARIABLES vm, vd, vv, vx, vp
vars == <<vm, vd, vv, vx, vp>>
Ref0 == 738000
Methods == {"previous", "linear", "quadratic", "cubic"}
Cv(m, ds, vs) == [knots |-> [i \in 1..Len(ds) |-> [d |-> Ref0 + ds[i], s |-> "0", v |-> vs[i]]],
                  method |-> m, dcc |-> "ACTUAL_OVER_365", ref |-> Midnight(Ref0), left |-> "CONSTANT", right |-> "ERROR"]
Shapes == {<<0, Gap, 2 * Gap, 3 * Gap, 5 * Gap>>, <<1, 3, 3 + Gap, 9 + Gap, 10 + Gap>>}
\* values: all patterns over Vals, and the polynomials of degree 1, 2, 3
Poly(k, ds) == [i \in 1..Len(ds) |-> DAdd("0.5", DPow(DDiv(ds[i], 100), k))]
Init == /\ vm \in Methods
        /\ vd \in Shapes
        /\ vv \in {[i \in 1..5 |-> w[i]] : w \in [1..5 -> Vals]} \cup {Poly(k, vd) : k \in 1..3}
        /\ vx = -1
        /\ vp = Prepared(Cv(vm, vd, vv))
Tick == vx < vd[5] /\ vx' = vx + 1 /\ UNCHANGED <<vm, vd, vv, vp>>
Spec == Init /\ [][Tick]_vars
C == Cv(vm, vd, vv)
T == Midnight(Ref0 + vx)
Y == Value(C, vp, T, NoAdj)
Inside == vx >= vd[1]
ThroughKnots == \A i \in 1..5 : vd[i] = vx => DClose(Y, vv[i], "1E-20", "1E-20")
FlatLeft == vx <= vd[1] => DClose(Y, vv[1], "1E-20", "1E-20")
MaxV(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : DLe(s[i], m)
MinV(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : DLe(m, s[i])
Bounded == vm \in {"previous", "linear"} => DLe(MinV(vv), Y) /\ DLe(Y, MaxV(vv))
\* a method of degree k reproduces polynomials up to degree k
Reproduces == \A k \in 1..3 : (/\ vv = Poly(k, vd)
                               /\ Inside
                               /\ \/ k = 1 /\ vm # "previous"
                                  \/ k = 2 /\ vm \in {"quadratic", "cubic"}
                                  \/ k = 3 /\ vm = "cubic")
                              => DClose(Y, DAdd("0.5", DPow(DDiv(vx, 100), k)), "1E-20", "1E-20")
DefinedWhere == Defined(C, T) /\ ~Defined(C, Midnight(Ref0 + vd[5] + 1))
\* piecewise linear: no second difference between knots
NoSteps == [][vm = "linear" /\ Inside => LET s == CHOOSE i \in 1..4 : vd[i] <= vx /\ vx < vd[i + 1]
              IN DClose(DSub(Value(C, vp, Midnight(Ref0 + vx + 1), NoAdj), Y),
                        DDiv(DSub(vv[s + 1], vv[s]), vd[s + 1] - vd[s]), "1E-20", "1E-20")]_vars
=============================================================================
