-------------------------------- MODULE MCAffine --------------------------------
(* The pricing calculus against the model's own dynamics, for a set of      *)
(* models, over times stepped through.                                      *)
EXTENDS Affine, TLC
CONSTANTS Steps, Wide
VARIABLES vm, vx, vk, ve, vn     \* model, state, steps, E and mean composed step by step
vars == <<vm, vx, vk, ve, vn>>
Ks == {"0.05", "0.6"}
Models == {OneFactor(k, l, v) : k \in Ks, l \in {"0.03", "-0.01"}, v \in {"0.01", "0.2"}}
          \cup {Doubly(k, "0.9", "0.04", "0.01", "0.02", r) : k \in Ks, r \in {"-0.5", "0.3"}}
          \cup {Trebly(k, "0.3", "1.1", "0.05", "0.01", "0.02", "0.015", "0.2", "0.1", "-0.4") : k \in Ks}
          \cup {PricedRisk("0.4", k, "1.3", "0.1", "0.02", "0.3", "0.02", "0.01", "0.2", "0.1", "0.5") : k \in {"0.07", "0.6"}}
          \cup (IF Wide THEN {[K |-> << <<a, "0.2">>, <<b, "1.1">> >>, theta |-> <<"0.02", "0.5">>, C |-> << <<"0.04", "-0.01">>, <<"-0.01", "0.09">> >>, g |-> <<"0.7", "-0.3">>, mu |-> "0.01"] :
                                  a \in {"0.3", "2"}, b \in {"0", "-0.4", "0.1"}} ELSE {})
X0(m) == Force([i \in 1..Len(m.K) |-> <<"0.01", "0.08", "-0.02">>[i]])
Step == "1.7"
Init == /\ vm \in Models
        /\ vx = X0(vm) /\ vk = 0 /\ ve = Eye(vm) /\ vn = vx
Next == /\ vk < Steps
        /\ vk' = vk + 1 /\ ve' = MMul(E(vm, Step), ve) /\ vn' = MeanState(vm, Step, vn) /\ UNCHANGED <<vm, vx>>
Spec == Init /\ [][Next]_vars
Time == DMul(Step, vk)
N == Len(vx)
Tiny(a, b) == DClose(a, b, "1E-25", "1E-25")
h == "1E-9"
Diff(f(_)) == DDiv(DSub(f(DAdd(Time, h)), f(DSub(Time, h))), DMul("2", h))
Close(a, b) == DClose(a, b, "1E-14", "1E-14")
AboutEqual(a, b) == DClose(a, b, "1E-4", "1E-9")
\* the state's law composes over steps
Composes == /\ \A i, j \in 1..N : Tiny(ve[i][j], E(vm, Time)[i][j])
            /\ \A i \in 1..N : Tiny(vn[i], MeanState(vm, Time, vx)[i])
            /\ vk > 0 => LET u == DMul(Step, vk - 1)
                             s == E(vm, Step)
                             c == Mat(MAdd(V(vm, Step), MMul(s, MMul(V(vm, u), T(s)))))
                         IN \A i, j \in 1..N : Tiny(c[i][j], V(vm, Time)[i][j])
\* the price coefficients solve their differential equations, from zero
Riccati == /\ vk = 0 => Tiny(A(vm, "0"), "0") /\ \A i \in 1..N : Tiny(B(vm, "0")[i], "0")
           /\ LET a(t) == A(vm, t) IN Close(Diff(a), DA(vm, Time))
           /\ \A i \in 1..N : LET b(t) == B(vm, t)[i]
                              IN /\ Close(Diff(b), DB(vm, Time)[i])
                                 /\ Close(DB(vm, Time)[i], DSub(DNeg(vm.g[i]), MV(T(vm.K), B(vm, Time))[i]))
\* forwards are minus the slope of the log price, their average the yield; the nearest one the short rate
Forwards == LET p(t) == LogPrice(vm, t, vx) IN
            /\ Close(DNeg(Diff(p)), Forward(vm, Time, vx))
            /\ vk = 0 => Tiny(Forward(vm, "0", vx), ShortRate(vm, vx))
\* Simpson's rule on sixty-four panels
Simpson(f(_), u) == LET n == 64
                        at(k) == f(DDiv(DMul(u, k), n))
                    IN DMul(DDiv(u, 3 * n), DSum([k \in 1..(n + 1) |-> DMul(IF k \in {1, n + 1} THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2, at(k - 1))]))
\* one expected bond price, from first principles: the integrated rate is Gaussian and
\* minus the log price is its mean less half its variance, B the minus expected accumulation
Accumulates == vk \in 1..3 => AboutEqual(DMul(Time, YieldConvexity(vm, Time, vx)), DMul("-0.5", LET f(t) == DDot(B(vm, t), MV(vm.C, B(vm, t)))
                                                                                       IN Simpson(f, Time)))
\* a portfolio without exposure grows at the short rate
NoArbitrage == vk > 0 =>
    LET ts == Force([k \in 1..(N + 1) |-> DMul(Time, <<"0.3", "1", "1.9", "3.1">>[k])])
        w == Riskless(vm, ts, vx)
        value == DSum([k \in 1..(N + 1) |-> DMul(w[k], Price(vm, ts[k], vx))])
        decay == DSum([k \in 1..(N + 1) |-> DMul(w[k], PriceSlope(vm, ts[k], vx))])
        curve == DSum(Curvatures(vm, w, ts, vx))
    IN DClose(DSub(curve, decay), DMul(ShortRate(vm, vx), value), "1E-15", "1E-15")
\* one factor: the textbook's closed forms
Textbook == (N = 1 /\ vk > 0) =>
    LET k == vm.K[1][1]
        m == vm.theta[1]
        c == vm.C[1][1]
        b == DDiv(DSub(DExp(DNeg(DMul(k, Time))), "1"), k)
        lim == DDiv(c, DMul("2", DMul(k, k)))
        a == DSub(DNeg(DMul(DSub(m, lim), DAdd(b, Time))), DDiv(DMul(c, DMul(b, b)), DMul("4", k)))
    IN /\ Tiny(B(vm, Time)[1], b) /\ Tiny(A(vm, Time), a)
       /\ Tiny(RateVariance(vm, Time), DMul(DDiv(c, DMul("2", k)), DSub("1", DExp(DNeg(DMul("2", DMul(k, Time)))))))
       /\ Tiny(YieldConvexity(vm, Time, vx), DMul(DDiv(c, Time), DAdd(DDiv(DNeg(DAdd(b, Time)), DMul("2", DMul(k, k))), DDiv(DMul(b, b), DMul("4", k)))))
Symmetric == \A i, j \in 1..N : Tiny(V(vm, Time)[i][j], V(vm, Time)[j][i])
Positive == vk > 0 => DLt("0", RateVariance(vm, Time)) \/ \A i \in 1..N : vm.g[i] = "0"
=============================================================================
