------------------------------- MODULE TraceLoan -------------------------------
(* Conformance of loans.  State: the loan, the discount curve; asking for  *)
(* one schedule does not change the next.                                  *)
EXTENDS TraceBase, Loan

VARIABLES l, ln, dq
vars == <<l, ln, dq>>

\* amounts are of the size of the principal
NearBy(a, b) == DClose(a, b, "1E-9", DMul("1E-11", DAdd("1", ln.principal)))
SamePayment(a, b) == /\ a.d = b.d
                     /\ NearBy(a.interest, b.interest) /\ NearBy(a.principal, b.principal) /\ NearBy(a.v, b.v)

RECURSIVE Total(_, _)
Total(ps, i) == IF i > Len(ps) THEN "0" ELSE DAdd(ps[i].principal, Total(ps, i + 1))

Clauses(e) ==
    CASE e.op = "level" /\ ~LevelOk(ln) -> [refused |-> ~Ok(e)]
      [] e.op = "schedule" /\ ~LoanOk(ln) -> [refused |-> ~Ok(e)]
      [] e.op = "pv" ->
            IF LevelOk(ln) /\ LoanOk(ln) /\ PvDefined(dq, AsCash(Payments(ln, Level(ln), <<>>)))
            THEN [present_value |-> Ok(e) /\ NearBy(e.out.v, Pv(dq, AsCash(Payments(ln, Level(ln), <<>>))))]
            ELSE [refused |-> ~Ok(e)]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "loan" -> [principal |-> DEq(e.out.v, e.loan.principal)]
      [] e.op = "level" -> [level_payment |-> NearBy(e.out.v, Level(ln))]
      [] e.op = "schedule" ->
            LET want == Payments(ln, e.amount, e.extra)
                got == e.out.v
            IN [dates |-> [i \in 1..Len(got) |-> got[i].d] = [i \in 1..Len(want) |-> want[i].d],
                payments |-> Len(got) = Len(want) /\ \A i \in 1..Len(got) : SamePayment(got[i], want[i]),
                adds_up |-> \A i \in 1..Len(got) : NearBy(got[i].v, DAdd(got[i].interest, got[i].principal)),
                never_more |-> DLe(Total(got, 1), DMul(ln.principal, "1.0000000001"))]
      [] e.op = "discount" -> [returned |-> TRUE]

TraceInit == l = 1 /\ ln = <<>> /\ dq = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN ln' = <<>> /\ dq' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ ln' = IF e.op = "loan" THEN e.loan ELSE ln
               /\ dq' = IF e.op = "discount" THEN LET c == [e.curve EXCEPT !.knots = SortKnots(e.curve.knots)]
                                                  IN [space |-> "DISCOUNT_FACTOR", c |-> c, p |-> Prepared(c), adj |-> NoAdj]
                        ELSE dq
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
