--------------------------------- MODULE Loan ---------------------------------
(***************************************************************************)
(* Amortising loans.  A loan is a record                                   *)
(*   principal, rate, from (origination), term [m, d] (months, days), dcc, *)
(*   n (payments a year), time ("END_OF_MONTH", "START_OF_MONTH").         *)
(***************************************************************************)
EXTENDS Cashflow, Schedule

MonthEnd(o) == AddMonths(o - DayOf(o) + 1, 1) - 1
NextMonth(o) == AddMonths(o - DayOf(o) + 1, 1)

LoanOk(x) == x.n \in {1, 2, 4, 12} /\ x.time \in {"END_OF_MONTH", "START_OF_MONTH"}

\* interest runs from here
FirstDate(x) == IF x.time = "END_OF_MONTH" THEN MonthEnd(x.from) ELSE NextMonth(x.from)
LastDate(x) == LET e == AddInc(FirstDate(x), x.term) IN IF x.time = "END_OF_MONTH" THEN MonthEnd(e) ELSE e

\* first date and payment dates: whole periods from the first date up to the last
NthPay(x, k) == LET o == AddMonths(FirstDate(x), k * (12 \div x.n)) IN IF x.time = "END_OF_MONTH" THEN MonthEnd(o) ELSE o
RECURSIVE CountPays(_, _)
CountPays(x, k) == IF NthPay(x, k) > LastDate(x) THEN k ELSE CountPays(x, k + 1)
PayDates(x) == [i \in 1..CountPays(x, 0) |-> NthPay(x, i - 1)]

Interest(x, a, b, balance) == DMul(YearFrac(x.dcc, a, b), DMul(x.rate, balance))

\* one payment: what is left over after interest reduces the principal, by no more than what is owed
Pay(x, a, b, balance, amount, extra) ==
    LET i == Interest(x, a, b, balance)
        p == DMin(balance, DAdd(DSub(amount, i), extra))
    IN [d |-> b, interest |-> i, principal |-> p, v |-> DAdd(p, i)]

\* extra payments: the k-th goes with the k-th payment; none beyond their end
Extra(es, k) == IF k <= Len(es) THEN es[k] ELSE "0"

RECURSIVE Amortise(_, _, _, _, _, _)
Amortise(x, ds, k, balance, amount, es) ==
    IF k >= Len(ds) THEN <<>>
    ELSE LET p == Pay(x, ds[k], ds[k + 1], balance, amount, Extra(es, k))
         IN <<p>> \o Amortise(x, ds, k + 1, DSub(balance, p.principal), amount, es)
Payments(x, amount, es) == Amortise(x, PayDates(x), 1, x.principal, amount, es)

\* the payment that repays the loan in equal instalments
TermYears(x) == YearFrac(x.dcc, x.from, AddInc(x.from, x.term))
Level(x) ==
    LET t == DMul(TermYears(x), x.n)
        r == DDiv(x.rate, x.n)
        c == DPow(DAdd("1", r), t)
    IN IF DEq(x.rate, "0") THEN DDiv(x.principal, t)
       ELSE DDiv(DMul(DMul(x.principal, c), r), DSub(c, "1"))
LevelOk(x) == x.n # 0 /\ ~DEq(TermYears(x), "0")

AsCash(ps) == [i \in 1..Len(ps) |-> [d |-> ps[i].d, has |-> TRUE, v |-> ps[i].v]]
=============================================================================
