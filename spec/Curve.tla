-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Curves through knots.  A curve is a record                              *)
(*   knots  sequence of [d, s, v]: day, seconds since midnight, value, in  *)
(*          increasing order of time                                       *)
(*   ref    [d, s], the origin of the axis, not after the first knot       *)
(*   dcc    day count of the axis                                          *)
(*   method previous / linear / quadratic / cubic                          *)
(*   left, right  behaviour outside the knots: CONSTANT or ERROR           *)
(* An adjustment is added to the value, at the asked date:                 *)
(*   [kind |-> "none"], "const" (a), "linear" (a + b days since from),     *)
(*   "keyrates" (hats).                                                    *)
(* A discount curve is taken from a yield curve with its adjustment; it is *)
(* a value, not a view.                                                    *)
(***************************************************************************)
EXTENDS Hat

At(k) == [d |-> k.d, s |-> k.s]
Axis(c, t) == Accrual(c.dcc, c.ref, t)
Xs(c) == [i \in 1..Len(c.knots) |-> Axis(c, c.knots[i])]
Ys(c) == [i \in 1..Len(c.knots) |-> c.knots[i].v]

\* stable sort by time
RECURSIVE InsertKnot(_, _), SortKnots(_)
InsertKnot(s, k) == IF s = <<>> THEN <<k>>
                    ELSE IF DtLe(At(s[Len(s)]), At(k)) THEN Append(s, k)
                    ELSE Append(InsertKnot(SubSeq(s, 1, Len(s) - 1), k), s[Len(s)])
SortKnots(s) == IF s = <<>> THEN <<>> ELSE InsertKnot(SortKnots(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

Increasing(s) == \A i \in 1..(Len(s) - 1) : DtLt(At(s[i]), At(s[i + 1]))

MinKnots(method) == CASE method = "quadratic" -> 3 [] method = "cubic" -> 4 [] OTHER -> 2

----------------------------------------------------------------------------
(* interpolation on the axis *)
Last(s) == s[Len(s)]
\* the last knot at or before x
RECURSIVE SegFrom(_, _, _)
SegFrom(xs, x, i) == IF i < Len(xs) /\ DLe(xs[i + 1], x) THEN SegFrom(xs, x, i + 1) ELSE i
Seg(xs, x) == SegFrom(xs, x, 1)

Linear(xs, ys, x) ==
    LET i == Seg(xs, x)
        j == IF i = Len(xs) THEN i - 1 ELSE i
        w == DDiv(DSub(x, xs[j]), DSub(xs[j + 1], xs[j]))
    IN DAdd(ys[j], DMul(w, DSub(ys[j + 1], ys[j])))

\* spline of degree k through the points, not-a-knot: polynomials of degree k and the truncated powers of the
\* inner breaks; cubic: the knots without the second and the last but one, quadratic: the midpoints without
\* the first and the last
Breaks(k, xs) ==
    LET n == Len(xs)
    IN IF k = 3 THEN SubSeq(xs, 3, n - 2)
       ELSE [i \in 1..(n - 3) |-> DDiv(DAdd(xs[i + 1], xs[i + 2]), 2)]
Basis(k, breaks, x) ==
    [i \in 1..(k + 1 + Len(breaks)) |->
        IF i = 1 THEN "1"
        ELSE IF i <= k + 1 THEN DPow(x, i - 1)
        ELSE LET z == DSub(x, breaks[i - k - 1]) IN IF DLe(z, "0") THEN "0" ELSE DPow(z, k)]
SplineCoef(k, xs, ys) ==
    LET b == Breaks(k, xs)
        m == MSolve([i \in 1..Len(xs) |-> Basis(k, b, xs[i])], [i \in 1..Len(ys) |-> <<ys[i]>>])
    IN [i \in 1..Len(xs) |-> m[i][1]]
Spline(k, xs, coef, x) == DDot(coef, Basis(k, Breaks(k, xs), x))

Degree(method) == IF method = "cubic" THEN 3 ELSE 2
\* what interpolation needs, computed once per curve
Prepared(c) ==
    LET xs == Xs(c)
        ys == Ys(c)
    IN [xs |-> xs, ys |-> ys,
        coef |-> IF c.method \in {"quadratic", "cubic"} THEN SplineCoef(Degree(c.method), xs, ys) ELSE <<>>]

Interp(method, p, x) ==
    CASE method = "previous" -> p.ys[Seg(p.xs, x)]
      [] method = "linear" -> Linear(p.xs, p.ys, x)
      [] OTHER -> Spline(Degree(method), p.xs, p.coef, x)

----------------------------------------------------------------------------
NoAdj == [kind |-> "none"]
AdjAt(adj, o) ==
    CASE adj.kind = "none" -> "0"
      [] adj.kind = "const" -> adj.a
      [] adj.kind = "linear" -> DAdd(adj.a, DMul(adj.b, o - adj.from))
      [] adj.kind = "keyrates" -> HatsAt(adj.hats, o)

IsBefore(c, t) == DtLt(t, At(c.knots[1]))
IsAfter(c, t) == DtLt(At(Last(c.knots)), t)
\* is the curve defined at t
Defined(c, t) == /\ IsBefore(c, t) => c.left = "CONSTANT"
                 /\ IsAfter(c, t) => c.right = "CONSTANT"
\* the value without adjustment
Plain(c, p, t) ==
    IF IsBefore(c, t) THEN c.knots[1].v
    ELSE IF IsAfter(c, t) THEN Last(c.knots).v
    ELSE Interp(c.method, p, Axis(c, t))
Value(c, p, t, adj) == DAdd(Plain(c, p, t), AdjAt(adj, t.d))

Reset(c, knots) == [c EXCEPT !.knots = SortKnots(knots)]
ResetAt(c, i, k) == [c EXCEPT !.knots[i] = k]
Valid(c) == /\ Len(c.knots) >= MinKnots(c.method)
            /\ Increasing(c.knots)
            /\ DtLe(c.ref, At(c.knots[1]))

----------------------------------------------------------------------------
(* Discount curves: a snapshot [space, c, p, adj] of a yield curve *)
Snapshot(space, c, p, adj) ==
    IF space = "DISCOUNT_FACTOR"
    THEN LET k == [c EXCEPT !.knots = [i \in 1..Len(c.knots) |-> [c.knots[i] EXCEPT !.v = Value(c, p, At(c.knots[i]), adj)]],
                            !.left = "ERROR", !.right = "ERROR"]
         IN [space |-> space, c |-> k, p |-> Prepared(k), adj |-> NoAdj]
    ELSE [space |-> space, c |-> c, p |-> p, adj |-> adj]

\* yields are needed from the reference date on
SnapshotDefined(space, c) == space = "DISCOUNT_FACTOR" \/ Defined(c, c.ref)

DfDefined(q, o) ==
    IF q.space = "DISCOUNT_FACTOR" THEN Defined(q.c, Midnight(o))
    ELSE SnapshotDefined(q.space, q.c) /\ q.c.ref.d <= o /\ o <= Last(q.c.knots).d
Df(q, o) ==
    IF q.space = "DISCOUNT_FACTOR" THEN Value(q.c, q.p, Midnight(o), NoAdj)
    ELSE DExp(DNeg(DMul(Value(q.c, q.p, Midnight(o), q.adj), Axis(q.c, Midnight(o)))))

\* payments [d, has, v]; the amount is missing where ~has
Due(q, pay) == {i \in 1..Len(pay) : pay[i].has /\ pay[i].d >= q.c.ref.d}
PvDefined(q, pay) == \A i \in Due(q, pay) : DfDefined(q, pay[i].d)
Pv(q, pay) == DSum([i \in 1..Len(pay) |-> IF i \in Due(q, pay) THEN DMul(Df(q, pay[i].d), pay[i].v) ELSE "0"])
=============================================================================
