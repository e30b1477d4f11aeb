-------------------------------- MODULE MCLoan --------------------------------
(* A loan being paid, payment by payment, for all small choices of extra    *)
(* payments.                                                                *)
EXTENDS Loan, TLC
CONSTANTS Origins
VARIABLES vx, vk, vb, vp, ve      \* loan, dates passed, balance, payments so far, extra payments so far
vars == <<vx, vk, vb, vp, ve>>
X(o, n, t, r, m) == [principal |-> "1000", rate |-> r, from |-> o, term |-> [m |-> m, d |-> 0], dcc |-> "THIRTY_OVER_THREESIXTY", n |-> n, time |-> t]
Init == /\ vx \in {X(738000 + 11 * j, n, t, r, m) : j \in 0..(Origins - 1), n \in {2, 4, 12}, t \in {"END_OF_MONTH", "START_OF_MONTH"},
                                                   r \in {"0", "0.06"}, m \in {6, 12}}
        /\ vk = 1 /\ vb = vx.principal /\ vp = <<>> /\ ve = <<>>
Amount == Level(vx)
Step == /\ vk < Len(PayDates(vx))
        /\ \E e \in {"0", "130"} :
              LET p == Pay(vx, PayDates(vx)[vk], PayDates(vx)[vk + 1], vb, Amount, e)
              IN /\ (e # "0" => \A i \in 1..Len(ve) : ve[i] = "0")      \* at most one extra payment
                 /\ vp' = Append(vp, p) /\ vb' = DSub(vb, p.principal) /\ ve' = Append(ve, e)
        /\ vk' = vk + 1 /\ UNCHANGED vx
Spec == Init /\ [][Step]_vars
Finished == vk = Len(PayDates(vx))
Near0(a) == DClose(a, "0", "0", "1E-20")
\* the closed form is the history
Closed == Finished => vp = Payments(vx, Amount, ve)
Conserved == DClose(DAdd(vb, DSum([i \in 1..Len(vp) |-> vp[i].principal])), vx.principal, "1E-30", "0")
Bounded == DLe("0", vb) /\ DLe(vb, vx.principal)
\* equal instalments repay the loan: 30/360 periods from month to month are equal (month ends: up to a day)
Repaid == Finished /\ vx.time = "START_OF_MONTH" => Near0(vb)
AlmostRepaid == Finished => DLe(vb, "2.5")
NeverOver == \A i \in 1..Len(vp) : DLe(vp[i].v, DAdd(DAdd(Amount, ve[i]), "1E-20"))
Dates == LET ds == PayDates(vx)
         IN /\ ds[1] >= vx.from /\ ds[1] <= vx.from + 31
            /\ \A i \in 1..(Len(ds) - 1) : ds[i] < ds[i + 1]
            /\ \A i \in 1..Len(ds) : IF vx.time = "END_OF_MONTH" THEN DayOf(ds[i] + 1) = 1 ELSE DayOf(ds[i]) = 1
            /\ Len(ds) = 1 + ((vx.term.m * vx.n) \div 12)
=============================================================================
