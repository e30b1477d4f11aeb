----------------------------- MODULE MCSchedule -----------------------------
(* A schedule built date by date.  Every start date of a window, several   *)
(* increments; the closed formula of Schedule against the walk, and the    *)
(* properties users rely on.                                               *)
EXTENDS Schedule, TLC, FiniteSets
CONSTANTS From, Days
VARIABLES vs, vi, vk, vl
vars == <<vs, vi, vk, vl>>
Incs == {[m |-> 1, d |-> 0], [m |-> 6, d |-> 0], [m |-> -3, d |-> 0], [m |-> -12, d |-> 0], [m |-> 0, d |-> 7], [m |-> 0, d |-> -1]}
Init == vs \in {From + 3 * j : j \in 0..(Days \div 3)} /\ vi \in Incs /\ vk = 0 /\ vl = vs
Step == vk < 9 /\ vk' = vk + 1 /\ vl' = NthDate(vs, vi, vk + 1) /\ UNCHANGED <<vs, vi>>
Spec == Init /\ [][Step]_vars

Up == vi.m > 0 \/ vi.d > 0
\* the walk so far is the schedule that ends at its last date
IsSchedule == LET S == Increments(vs, vl, vi, Up, 1000)
              IN Len(S) = vk + 1 /\ S[Len(S)] = vl /\ S[1] = vs
\* the day of the month is that of the start, or the month's end before it
NoDrift == vi.d = 0 => LET t == YMD(vl) IN t[3] = DayOf(vs) \/ (t[3] = DaysInMonth(t[1], t[2]) /\ t[3] < DayOf(vs))
Advances == [][IF Up THEN vl' > vl ELSE vl' < vl]_vars
=============================================================================
