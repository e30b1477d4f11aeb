-------------------------------- MODULE Process --------------------------------
(***************************************************************************)
(* Sample paths on a grid of timestamps.                                    *)
(* A motion: [start, end, dim, corr, dcc].  A shock matrix z has one row    *)
(* for each dimension and one column for each step: independent standard    *)
(* normal draws, a function of the seed, the dimension and the number of    *)
(* steps only.  A path is the sequence of its values (vectors), one for     *)
(* each grid point.                                                         *)
(* An Euler process: rows [a, lin, b, s, u], one for each coordinate, with  *)
(*   drift a + lin . x + b t   and  loading  s[j] + u[j] x_i  on noise j.   *)
(***************************************************************************)
EXTENDS Schedule

\* evaluate a vector now (TLC's functions are lazy)
Force(v) == v \o <<>>

Grid(start, end, inc) ==
    LET g == Force(IncrementsDt(start, end, inc, 1000000))
    IN IF DtLt(g[Len(g)], end) THEN Append(g, end) ELSE g
Steps(g, dcc) == Force([k \in 1..(Len(g) - 1) |-> Accrual(dcc, g[k], g[k + 1])])

\* lower-triangular L with L L' = c
RECURSIVE CholRow(_, _, _, _)
CholRow(c, up, i, j) ==   \* entries 1..j of row i, the rows above being up
    IF j = 0 THEN <<>>
    ELSE LET r == CholRow(c, up, i, j - 1)
             x == DSub(c[i][j], DSum([k \in 1..(j - 1) |-> DMul(r[k], IF i = j THEN r[k] ELSE up[j][k])]))
         IN Append(r, IF i = j THEN DSqrt(x) ELSE DDiv(x, up[j][j]))
RECURSIVE CholRows(_, _)
CholRows(c, i) == IF i = 0 THEN <<>> ELSE LET up == CholRows(c, i - 1) IN Append(up, CholRow(c, up, i, i))
Zeros(n) == Force([i \in 1..n |-> "0"])
Chol(c) == LET n == Len(c)
               r == CholRows(c, n)
           IN Force([i \in 1..n |-> Force(r[i] \o Zeros(n - i))])

Column(z, k) == Force([i \in 1..Len(z) |-> z[i][k]])

\* correlated shocks of the steps, in order: L z_k sqrt(dt_k)
Shocks(L, z, dts) ==
    Force([k \in 1..Len(dts) |-> LET c == Column(z, k)
                                     r == DSqrt(dts[k])
                                 IN Force([i \in 1..Len(L) |-> DMul(r, DDot(L[i], c))])])
\* the draws behind shocks (given as vectors, one for each step)
Draws(L, sh, dts) ==
    LET cols == Force([k \in 1..Len(dts) |-> MSolve(L, [i \in 1..Len(L) |-> <<DDiv(sh[k][i], DSqrt(dts[k]))>>])])
    IN Force([i \in 1..Len(L) |-> Force([k \in 1..Len(dts) |-> cols[k][i][1]])])

RECURSIVE Running(_, _, _)
\* values from x on, adding the shocks one after the other
Running(x, sh, k) == IF k > Len(sh) THEN <<x>>
                     ELSE <<x>> \o Running(Force([i \in 1..Len(x) |-> DAdd(x[i], sh[k][i])]), sh, k + 1)

Drift(r, x, t) == DAdd(r.a, DAdd(DDot(r.lin, x), DMul(r.b, t)))
EulerStep(rows, x, t, dt, sh) ==
    Force([i \in 1..Len(x) |-> LET r == rows[i]
                               IN DAdd(x[i], DAdd(DMul(Drift(r, x, t), dt), DAdd(DDot(r.s, sh), DMul(x[i], DDot(r.u, sh)))))])
RECURSIVE EulerFrom(_, _, _, _, _, _)
EulerFrom(rows, x, t, dts, sh, k) ==
    IF k > Len(dts) THEN <<x>>
    ELSE <<x>> \o EulerFrom(rows, EulerStep(rows, x, t, dts[k], sh[k]), DAdd(t, dts[k]), dts, sh, k + 1)
Euler(rows, x, dts, sh) == EulerFrom(rows, x, "0", dts, sh, 1)

----------------------------------------------------------------------------
(* evaluation between grid points *)
InRange(m, t) == DtLe(m.start, t) /\ DtLe(t, m.end)
NextIndex(g, t) == CHOOSE k \in 1..Len(g) : DtLe(t, g[k]) /\ (k = 1 \/ DtLt(g[k - 1], t))
\* the fraction of the step elapsed, as [ok, v]: it has none when the step has no length
Elapsed(g, dcc, t) ==
    LET k == NextIndex(g, t)
    IN IF DtEq(t, g[k]) THEN [ok |-> TRUE, v |-> "1"]
       ELSE LET a == Accrual(dcc, g[k - 1], t)
                b == Accrual(dcc, t, g[k])
            IN IF DEq(DAdd(a, b), "0") THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> DDiv(a, DAdd(a, b))]
AtOk(g, dcc, t) == Elapsed(g, dcc, t).ok
At(path, g, dcc, t) ==
    LET k == NextIndex(g, t)
        w == Elapsed(g, dcc, t).v
    IN IF DEq(w, "1") THEN path[k]
       ELSE Force([i \in 1..Len(path[k]) |-> DAdd(DMul(w, path[k][i]), DMul(DSub("1", w), path[k - 1][i]))])

----------------------------------------------------------------------------
(* short rates: r = c0 + c . x + q x_1^2 *)
Rate(tr, x) == DAdd(tr.c0, DAdd(DDot(tr.c, x), DMul(tr.q, DMul(x[1], x[1]))))

\* time since the start
Axis(m, t) == Accrual(m.dcc, m.start, t)

\* trapezoid rule through the rates at the timestamps, from the first of them on
RECURSIVE Integrate(_, _, _, _)
Integrate(ax, rs, k, acc) ==
    IF k > Len(rs) THEN <<>>
    ELSE LET a == IF k = 1 THEN "0" ELSE DAdd(acc, DMul(DDiv(DAdd(rs[k - 1], rs[k]), 2), DSub(ax[k], ax[k - 1])))
         IN <<a>> \o Integrate(ax, rs, k + 1, a)

\* linear through (ax, vs)
LinearAt(ax, vs, x) ==
    LET k == CHOOSE k \in 1..Len(ax) : DLe(x, ax[k]) /\ (k = 1 \/ DLt(ax[k - 1], x))
    IN IF DEq(x, ax[k]) \/ k = 1 THEN vs[k]
       ELSE LET w == DDiv(DSub(x, ax[k - 1]), DSub(ax[k], ax[k - 1]))
            IN DAdd(DMul(w, vs[k]), DMul(DSub("1", w), vs[k - 1]))
=============================================================================
