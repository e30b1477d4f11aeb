------------------------------ MODULE Cashflow ------------------------------
(***************************************************************************)
(* A cash flow is a sequence of payments [d, has, v] in the order of their *)
(* dates, payments of one date in the order they came.  A collection of    *)
(* cash flows is a sequence of [k, c]: keys in the order they were first   *)
(* put in, each with its latest cash flow.                                 *)
(***************************************************************************)
EXTENDS Curve

RECURSIVE AddPayment(_, _), CashOf(_)
AddPayment(s, p) == IF s = <<>> THEN <<p>>
                    ELSE IF s[Len(s)].d <= p.d THEN Append(s, p)
                    ELSE Append(AddPayment(SubSeq(s, 1, Len(s) - 1), p), s[Len(s)])
CashOf(s) == IF s = <<>> THEN <<>> ELSE AddPayment(CashOf(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

InOrder(s) == \A i \in 1..(Len(s) - 1) : s[i].d <= s[i + 1].d

Keys(c) == [i \in 1..Len(c) |-> c[i].k]
HasKey(c, k) == \E i \in 1..Len(c) : c[i].k = k
Put(c, k, x) == IF HasKey(c, k) THEN [i \in 1..Len(c) |-> IF c[i].k = k THEN [k |-> k, c |-> x] ELSE c[i]]
                ELSE Append(c, [k |-> k, c |-> x])
Lookup(c, k) == (CHOOSE i \in 1..Len(c) : c[i].k = k)
=============================================================================
