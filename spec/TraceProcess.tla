------------------------------ MODULE TraceProcess ------------------------------
(* Conformance of sample paths.  State:                                     *)
(*   md   the object: kind "brownian", "euler" or "short", its motion m,    *)
(*        the increment of its grid, its rows, its rate transformation      *)
(*   pa   the path kept in it (of the state variables), with its grid       *)
(*   ig   the integral kept in it;  dc the discount curve kept in it        *)
(*   zs   the draws of the seeds seen                                       *)
EXTENDS TraceBase, Process

VARIABLES l, md, pa, ig, dc, zs
vars == <<l, md, pa, ig, dc, zs>>

None == [set |-> FALSE]

\* -- draws ---------------------------------------------------------------
Known(seed, dim, n) == \E i \in 1..Len(zs) : zs[i].seed = seed /\ zs[i].dim = dim /\ zs[i].n = n
DrawsOf(seed, dim, n) == zs[CHOOSE i \in 1..Len(zs) : zs[i].seed = seed /\ zs[i].dim = dim /\ zs[i].n = n].z
Positive(dts) == \A k \in 1..Len(dts) : DLt("0", dts[k])

\* grids and shocks of the object for a grid increment
GridOf(inc) == Grid(md.m.start, md.m.end, inc)
Dts(g) == Steps(g, md.m.dcc)
ShocksOf(m, seed, g) == Shocks(Chol(m.corr), DrawsOf(seed, m.dim, Len(g) - 1), Steps(g, m.dcc))
ShocksFor(seed, g) == ShocksOf(md.m, seed, g)

SameGrid(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : DtEq(a[k], b[k])
\* paths are sums of terms of their own size
Big(p) == DAdd("1", DSum([k \in 1..Len(p) |-> DSum([i \in 1..Len(p[k]) |-> DAbs(p[k][i])])]))
NearIn(a, b, p) == DClose(a, b, "1E-9", DMul("1E-13", Big(p)))
SamePath(a, b) == /\ Len(a) = Len(b)
                  /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A i \in 1..Len(a[k]) : NearIn(a[k][i], b[k][i], b)
Diffs(p) == Force([k \in 1..(Len(p) - 1) |-> Force([i \in 1..Len(p[k]) |-> DSub(p[k + 1][i], p[k][i])])])

\* -- short rates --------------------------------------------------------------
Rates(p) == Force([k \in 1..Len(p) |-> Rate(md.tr, p[k])])
SameRates(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : DClose(a[k], b[k], "1E-9", "1E-11")
TimesOf(e) == IF e.times = <<>> THEN pa.grid ELSE e.times
RatesAt(ts) == Force([k \in 1..Len(ts) |-> Rate(md.tr, At(pa.path, pa.grid, md.m.dcc, ts[k]))])
AxisOf(ts) == Force([k \in 1..Len(ts) |-> Axis(md.m, ts[k])])
Integral(e) == LET ts == TimesOf(e) IN Integrate(AxisOf(ts), RatesAt(ts), 1, "0")
IntegralDefined(e) == /\ pa.set
                      /\ \A k \in 1..Len(TimesOf(e)) : InRange(md.m, TimesOf(e)[k])
IntegralKnown(e) == \A k \in 1..Len(TimesOf(e)) : AtOk(pa.grid, md.m.dcc, TimesOf(e)[k])
Exps(vs, sign) == Force([k \in 1..Len(vs) |-> DExp(DMul(sign, vs[k]))])
\* values of a curve through (times, vs) at the timestamps asked about: "none" outside
CurveAt(ts, vs, asks) ==
    LET ax == AxisOf(ts)
    IN [k \in 1..Len(asks) |-> IF DtLt(asks[k], ts[1]) \/ DtLt(ts[Len(ts)], asks[k]) THEN "none"
                                ELSE LinearAt(ax, vs, Axis(md.m, asks[k]))]
SameCurve(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) :
    IF b[k] = "none" THEN a[k] = "none" ELSE a[k] # "none" /\ Near(a[k], b[k])

\* -- what is kept after an event ---------------------------------------------------
\* the state path of a generation the specification can compute, or that which was returned
Computed(e) ==
    LET g == GridOf(IF md.kind = "brownian" THEN e.inc ELSE md.inc)
        sh == ShocksFor(e.seed, g)
    IN IF md.kind = "brownian" THEN Running(Zeros(md.m.dim), sh, 1)
       ELSE Euler(md.rows, e.x, Dts(g), sh)
Steps1(e) == Len(GridOf(IF md.kind = "brownian" THEN e.inc ELSE md.inc)) - 1
CanCompute(e) == Steps1(e) = 0 \/ (e.seed # -1 /\ Known(e.seed, md.m.dim, Steps1(e)))
PathOf(e) == IF CanCompute(e) THEN Computed(e) ELSE e.out.v.path

Moment(v, i, j) == DDiv(DDot([k \in 1..Len(v) |-> v[k][i]], [k \in 1..Len(v) |-> v[k][j]]), Len(v))
Lag(v, i, j) == DDiv(DDot([k \in 1..(Len(v) - 1) |-> v[k][i]], [k \in 1..(Len(v) - 1) |-> v[k + 1][j]]), Len(v) - 1)
Mean(v, i) == DDiv(DSum([k \in 1..Len(v) |-> v[k][i]]), Len(v))

Clauses(e) ==
    CASE e.op = "at" ->
            IF ~pa.set \/ ~InRange(md.m, e.t) THEN [refused |-> ~Ok(e)]
            ELSE IF ~AtOk(pa.grid, md.m.dcc, e.t) THEN [undetermined |-> TRUE]
            ELSE LET v == At(pa.path, pa.grid, md.m.dcc, e.t)
                 IN IF md.kind = "short" THEN [rate |-> Ok(e) /\ Near(e.out.v, Rate(md.tr, v))]
                    ELSE [value |-> Ok(e) /\ Len(e.out.v) = Len(v) /\ \A i \in 1..Len(v) : NearIn(e.out.v[i], v[i], pa.path)]
      [] e.op = "integral" ->
            IF ~IntegralDefined(e) THEN [refused |-> ~Ok(e)]
            ELSE IF ~IntegralKnown(e) THEN [undetermined |-> TRUE]
            ELSE [integral |-> Ok(e) /\ SameRates(e.out.v, Integral(e))]
      [] e.op \in {"accrual", "discount"} ->
            IF ~IntegralDefined(e) THEN [refused |-> ~Ok(e)]
            ELSE [refers |-> Ok(e) /\ DtEq(e.out.v.ref, md.m.start) /\ e.out.v.index = e.index,
                  curve |-> Ok(e) /\ SameCurve(e.out.v.at, CurveAt(TimesOf(e), Exps(Integral(e), IF e.op = "accrual" THEN "1" ELSE "-1"), e.asks))]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "object" -> [start |-> DtEq(e.out.v.start, e.md.m.start), end |-> DtEq(e.out.v.end, e.md.m.end), dimension |-> e.out.v.dim = e.md.dim]
      [] e.op = "increments" ->
            LET g == Grid(e.m.start, e.m.end, e.inc)
                v == e.out.v
                dts == Steps(g, e.m.dcc)
            IN [grid |-> SameGrid(v.grid, g),
                steps |-> VNear(v.dts, dts),
                shocks |-> /\ Len(v.shocks) = Len(dts)
                           /\ \A k \in 1..Len(dts) : Len(v.shocks[k]) = e.m.dim
                           /\ (e.seed # -1 /\ Known(e.seed, e.m.dim, Len(dts)) /\ Len(dts) > 0) =>
                                LET sh == ShocksOf(e.m, e.seed, g) IN \A k \in 1..Len(dts) : VNear(v.shocks[k], sh[k])]
      [] e.op = "generate" ->
            LET v == e.out.v
                n == Steps1(e)
            IN IF md.kind = "short"
               THEN [length |-> Len(v.rates) = n + 1,
                     path |-> (e.set /\ CanCompute(e)) => SamePath(v.path, Computed(e)),
                     rates |-> IF CanCompute(e) THEN SameRates(v.rates, Rates(Computed(e)))
                               ELSE e.set => SameRates(v.rates, Rates(v.path))]
               ELSE [length |-> Len(v.path) = n + 1,
                     begins |-> VNear(v.path[1], IF md.kind = "brownian" THEN Zeros(md.m.dim) ELSE e.x),
                     path |-> CanCompute(e) => SamePath(v.path, Computed(e))]
      [] e.op = "differ" -> [unseeded |-> ~SamePath(e.out.v.a, e.out.v.b)]
      [] e.op = "seeds" -> [seed_matters |-> e.a # e.b => ~SamePath(e.out.v.a, e.out.v.b)]
      [] e.op \in {"set_dt", "parameters"} -> [returned |-> TRUE]
      [] e.op = "kept" ->
            LET v == e.out.v
            IN [path |-> IF pa.set THEN v.path.set /\ SamePath(v.path.v, pa.path) ELSE ~v.path.set,
                rates |-> md.kind = "short" => IF pa.set THEN v.rates.set /\ SameRates(v.rates.v, Rates(pa.path)) ELSE ~v.rates.set,
                integral |-> md.kind = "short" => IF ig.set THEN v.integral.set /\ SameRates(v.integral.v, ig.v) ELSE ~v.integral.set,
                discount |-> md.kind = "short" => IF dc.set THEN v.discount.set /\ SameCurve(v.discount.v, CurveAt(dc.times, dc.v, e.asks)) ELSE ~v.discount.set]
      [] e.op = "moments" ->   \* standardised increments of many steps: five standard errors
            LET sh == e.out.v
                n == Len(sh)
                tol(x) == DDiv(DMul("5", x), DSqrt(n))
                c == md.m.corr
                r == DSqrt(e.dt)
                z == Force([k \in 1..n |-> Force([i \in 1..Len(sh[k]) |-> DDiv(sh[k][i], r)])])
            IN [steps |-> n = (md.m.end.d - md.m.start.d) \div e.inc.d,
                mean |-> \A i \in 1..Len(c) : DClose(Mean(z, i), "0", "0", tol("1")),
                correlation |-> \A i, j \in 1..Len(c) : DClose(Moment(z, i, j), c[i][j], "0", tol("1.5")),
                independent |-> \A i, j \in 1..Len(c) : DClose(Lag(z, i, j), "0", "0", tol("1"))]

\* draws learnt from an event
Learn(e) ==
    IF e.op # "increments" \/ ~Ok(e) THEN zs
    ELSE LET dts == Steps(Grid(e.m.start, e.m.end, e.inc), e.m.dcc)
         IN IF e.seed = -1 \/ Len(dts) = 0 \/ Known(e.seed, e.m.dim, Len(dts)) \/ ~Positive(dts) \/ Len(e.out.v.shocks) # Len(dts) THEN zs
            ELSE Append(zs, [seed |-> e.seed, dim |-> e.m.dim, n |-> Len(dts), z |-> Draws(Chol(e.m.corr), e.out.v.shocks, dts)])

AfterPa(e) == CASE e.op = "object" -> None
                [] e.op = "generate" /\ e.set /\ Ok(e) -> [set |-> TRUE, path |-> PathOf(e), grid |-> GridOf(IF md.kind = "brownian" THEN e.inc ELSE md.inc)]
                [] e.op = "set_dt" -> None
                [] OTHER -> pa
AfterIg(e) == CASE e.op \in {"object", "set_dt"} -> None
                [] e.op = "generate" -> IF e.set THEN None ELSE ig
                [] e.op \in {"integral", "accrual", "discount"} /\ IntegralDefined(e) ->
                      IF IntegralKnown(e) THEN [set |-> TRUE, v |-> Integral(e)] ELSE [set |-> TRUE, v |-> e.out.v]
                [] OTHER -> ig
AfterDc(e) == CASE e.op \in {"object", "set_dt"} -> None
                [] e.op = "generate" -> IF e.set THEN None ELSE dc
                [] e.op = "discount" /\ IntegralDefined(e) -> [set |-> TRUE, times |-> TimesOf(e), v |-> Exps(Integral(e), "-1")]
                [] OTHER -> dc

TraceInit == l = 1 /\ md = <<>> /\ pa = None /\ ig = None /\ dc = None /\ zs = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN md' = <<>> /\ pa' = None /\ ig' = None /\ dc' = None /\ zs' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ md' = CASE e.op \in {"object", "parameters"} -> e.md [] e.op = "set_dt" -> [md EXCEPT !.inc = e.inc] [] OTHER -> md
               /\ pa' = AfterPa(e) /\ ig' = AfterIg(e) /\ dc' = AfterDc(e) /\ zs' = Learn(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
