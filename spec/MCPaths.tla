-------------------------------- MODULE MCPaths --------------------------------
(* Paths stepped from grid point to grid point with all choices of draws    *)
(* from a small set: the closed forms of Process are the histories.         *)
EXTENDS Process, TLC
CONSTANTS Starts, Long, Few
VARIABLES vm, vi, vk, vt, vb, vx, vz, vg    \* motion, increment, steps made, time, Brownian and Euler paths, draws, grid so far
vars == <<vm, vi, vk, vt, vb, vx, vz, vg>>

Corr(r) == << <<"1", r>>, <<r, "1">> >>
Ts(d, s) == [d |-> d, s |-> s]
Incs == {[m |-> 0, d |-> 9, s |-> "0"], [m |-> 1, d |-> 0, s |-> "0"], [m |-> 0, d |-> 0, s |-> "100000"]}
Span(i) == CASE i.m = 1 -> 31 * Long + 8 [] i.d = 9 -> 9 * Long + 5 [] OTHER -> Long
Init == /\ vi \in Incs
        /\ vm \in {[start |-> Ts(738150 + 17 * j, "5400"), end |-> Ts(738150 + 17 * j + Span(vi), s), dim |-> 2, corr |-> Corr(r), dcc |-> d] :
                     j \in 0..(Starts - 1), s \in {"5400", "80000"}, r \in {"0", "0.6", "-0.35"}, d \in {"ACTUAL_OVER_360", "ACTUAL_OVER_ACTUAL"}}
        /\ vk = 0 /\ vt = "0" /\ vb = << <<"0", "0">> >> /\ vx = << <<"0.5", "-1">> >> /\ vz = << <<>>, <<>> >>
        /\ vg = <<vm.start>>
\* an exactly solvable process: constant drift, constant loadings
Rows == << [a |-> "0.3", lin |-> <<"0", "0">>, b |-> "0", s |-> <<"0.2", "0">>, u |-> <<"0", "0">>],
           [a |-> "-0.1", lin |-> <<"0", "0">>, b |-> "0", s |-> <<"0.1", "0.4">>, u |-> <<"0", "0">>] >>
\* computed from the motion's own grid
NextPoint == AddDt(vm.start, vi, vk + 1)
Step == /\ DtLt(vg[Len(vg)], vm.end)
        /\ LET p == vg[Len(vg)]
               q == IF DtLt(NextPoint, vm.end) THEN NextPoint ELSE vm.end
               dt == Accrual(vm.dcc, p, q)
           IN \E a \in {"0", "1.5", "-0.7"}, b \in (IF Few THEN {"0.8"} ELSE {"0", "-1.2"}) :
                LET sh == Shocks(Chol(vm.corr), << <<a>>, <<b>> >>, <<dt>>)[1]
                IN /\ vg' = Append(vg, q)
                   /\ vt' = DAdd(vt, dt)
                   /\ vb' = Append(vb, <<DAdd(vb[Len(vb)][1], sh[1]), DAdd(vb[Len(vb)][2], sh[2])>>)
                   /\ vx' = Append(vx, EulerStep(Rows, vx[Len(vx)], vt, dt, sh))
                   /\ vz' = << Append(vz[1], a), Append(vz[2], b) >>
        /\ vk' = vk + 1 /\ UNCHANGED <<vm, vi>>
Spec == Init /\ [][Step]_vars
Finished == DtEq(vg[Len(vg)], vm.end)

Tiny(a, b) == DClose(a, b, "1E-30", "1E-30")
Same(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : \A i \in 1..Len(p[k]) : Tiny(p[k][i], q[k][i])
GridIsHistory == Finished => LET g == Grid(vm.start, vm.end, vi) IN Len(g) = Len(vg) /\ \A k \in 1..Len(g) : DtEq(g[k], vg[k])
Increasing == \A k \in 1..(Len(vg) - 1) : DtLt(vg[k], vg[k + 1])
TimeAdds == Tiny(vt, Accrual(vm.dcc, vm.start, vg[Len(vg)]))
Dt == Steps(vg, vm.dcc)
Cholesky == LET L == Chol(vm.corr) IN \A i, j \in 1..2 : Tiny(DDot(L[i], L[j]), vm.corr[i][j]) /\ (j > i => L[i][j] = "0")
PathsClosed == vk > 0 => LET sh == Shocks(Chol(vm.corr), vz, Dt)
                         IN Same(vb, Running(<<"0", "0">>, sh, 1)) /\ Same(vx, Euler(Rows, <<"0.5", "-1">>, Dt, sh))
DrawsBack == vk > 0 => LET L == Chol(vm.corr)
                           z == Draws(L, Shocks(L, vz, Dt), Dt)
                       IN \A i \in 1..2 : \A k \in 1..vk : Tiny(z[i][k], vz[i][k])
\* constant coefficients: the path is the start plus drift times time plus loadings times the motion
Solved == \A i \in 1..2 : Tiny(vx[Len(vx)][i], DAdd(vx[1][i], DAdd(DMul(Rows[i].a, vt), DDot(Rows[i].s, vb[Len(vb)]))))
\* asked at a grid point the path is its value; between two, a mean of them
Grids == vk > 0 => \A k \in 1..Len(vg) : At(vx, vg, vm.dcc, vg[k]) = vx[k]
Between == vk > 0 => LET t == AddDt(vg[vk], [m |-> 0, d |-> 0, s |-> "30000"], 1)
                     IN DtLt(t, vg[vk + 1]) =>
                          \A i \in 1..2 : LET v == At(vx, vg, vm.dcc, t)[i]
                                              a == vx[vk][i]
                                              b == vx[vk + 1][i]
                                          IN DLe(DMin(a, b), DAdd(v, "1E-30")) /\ DLe(v, DAdd(DMax(a, b), "1E-30"))
\* rates: the integral of constants and of straight lines is exact, and adds over a finer list of times
RatesOf == Force([k \in 1..Len(vx) |-> Rate([c0 |-> "0.01", c |-> <<"1", "0.5">>, q |-> "0.2"], vx[k])])
Ax == Force([k \in 1..Len(vg) |-> Axis(vm, vg[k])])
Constants == LET v == Integrate(Ax, [k \in 1..Len(vg) |-> "0.07"], 1, "0") IN \A k \in 1..Len(vg) : Tiny(v[k], DMul("0.07", Ax[k]))
Lines == LET v == Integrate(Ax, Ax, 1, "0") IN \A k \in 1..Len(vg) : Tiny(v[k], DDiv(DMul(Ax[k], Ax[k]), 2))
Slopes == LET v == Integrate(Ax, RatesOf, 1, "0")
          IN /\ v[1] = "0"
             /\ \A k \in 1..vk : LET d == DDiv(DSub(v[k + 1], v[k]), DSub(Ax[k + 1], Ax[k]))
                                 IN Tiny(d, DDiv(DAdd(RatesOf[k], RatesOf[k + 1]), 2))
Inverse == vk > 0 => LET v == Integrate(Ax, RatesOf, 1, "0")
                     IN \A k \in 1..Len(v) : DClose(DMul(DExp(v[k]), DExp(DNeg(v[k]))), "1", "1E-25", "0")
=============================================================================
