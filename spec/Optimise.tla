------------------------------- MODULE Optimise -------------------------------
(***************************************************************************)
(* Mean-variance portfolios, exactly: the minimum of a convex quadratic    *)
(*    x'Hx/2 - c'x   subject to A x = b, and x >= 0 unless short           *)
(* is the best of the minima over every set of positive positions.         *)
(***************************************************************************)
EXTENDS Dec, FiniteSets

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Ascending(S \ {x})

Dot(a, b) == DDot(a, b)
QuadForm(h, x) == DDot(x, [i \in 1..Len(x) |-> DDot(h[i], x)])

\* the stationary point with positions in S only: the solution of the Kuhn-Tucker equations
Stationary(h, c, a, b, S) ==
    LET s == Ascending(S)
        k == Len(s)
        m == Len(a)
        mat == [i \in 1..(k + m) |-> [j \in 1..(k + m) |->
                  IF i <= k /\ j <= k THEN h[s[i]][s[j]]
                  ELSE IF i <= k THEN a[j - k][s[i]]
                  ELSE IF j <= k THEN a[i - k][s[j]] ELSE "0"]]
        rhs == [i \in 1..(k + m) |-> <<IF i <= k THEN c[s[i]] ELSE b[i - k]>>]
        sol == MSolve(mat, rhs)
    IN [i \in 1..Len(h) |-> IF i \in S THEN sol[CHOOSE j \in 1..k : s[j] = i][1] ELSE "0"]

Objective(h, c, x) == DSub(DDiv(QuadForm(h, x), 2), DDot(c, x))
Feasible(x) == \A i \in 1..Len(x) : DLe("-1E-30", x[i])

\* sets of positions for which the equations have one solution: at least as many as constraints (for the return
\* constraint, assets of different means)
Supports(n, a) ==
    {S \in SUBSET (1..n) : /\ Cardinality(S) >= Len(a)
                           /\ Len(a) = 2 => \E i, j \in S : ~DEq(a[2][i], a[2][j])}
Candidates(h, c, a, b) == {x \in {Stationary(h, c, a, b, S) : S \in Supports(Len(h), a)} : Feasible(x)}
\* a single asset that meets the return exactly
Corners(h, a, b) == {x \in {[i \in 1..Len(h) |-> IF i = j THEN "1" ELSE "0"] : j \in 1..Len(h)} :
                       \A r \in 1..Len(a) : DClose(DDot(a[r], x), b[r], "0", "1E-30")}

Best(h, c, a, b, short) ==
    IF short THEN Stationary(h, c, a, b, 1..Len(h))
    ELSE LET all == Candidates(h, c, a, b) \cup Corners(h, a, b)
         IN CHOOSE x \in all : \A y \in all : DLe(Objective(h, c, x), Objective(h, c, y))
=============================================================================
