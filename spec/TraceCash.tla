------------------------------ MODULE TraceCash ------------------------------
(* Conformance of cash flows, collections of cash flows and their present  *)
(* values.  State: the cash flow, the collection, the discount curve.      *)
EXTENDS TraceBase, Cashflow, PySlices

VARIABLES l, tc, tk, tq

Index(i, n) == IF i < 0 THEN n + i + 1 ELSE i + 1      \* Python's index as ours
SamePay(a, b) == a.d = b.d /\ a.has = b.has /\ (a.has => DEq(a.v, b.v))
SamePays(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SamePay(a[i], b[i])

Size(pay) == DSum([i \in 1..Len(pay) |-> IF pay[i].has THEN DAbs(pay[i].v) ELSE "0"])
NearPv(a, b, pay) == DClose(a, b, "1E-9", DMul("1E-12", DAdd("1", Size(pay))))

AfterC(e) == CASE e.op = "new" -> CashOf(e.pays)
               [] e.op = "add" -> AddPayment(tc, e.pay)
               [] e.op = "become_slice" -> SubSeq(tc, e.i + 1, e.j)
               [] OTHER -> tc
AfterK(e) == CASE e.op = "coll_new" -> [i \in 1..Len(e.keys) |-> [k |-> e.keys[i], c |-> e.ids[i]]]
               [] e.op = "coll_put" -> Put(tk, e.k, e.id)
               [] OTHER -> tk
AfterQ(e) == IF e.op = "curve" THEN LET c == [e.curve EXCEPT !.knots = SortKnots(e.curve.knots)]
                                    IN [space |-> "DISCOUNT_FACTOR", c |-> c, p |-> Prepared(c), adj |-> NoAdj]
             ELSE tq

Clauses(e) ==
    CASE e.op = "get" ->
            IF Index(e.i, Len(tc)) \in 1..Len(tc)
            THEN [payment |-> Ok(e) /\ SamePay(e.out.v, tc[Index(e.i, Len(tc))])]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "uneven" -> [refused |-> ~Ok(e)]
      [] e.op = "coll_get" ->
            IF HasKey(tk, e.k) THEN [latest |-> Ok(e) /\ e.out.v = tk[Lookup(tk, e.k)].c]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "pv" ->
            IF PvDefined(tq, tc) THEN [present_value |-> Ok(e) /\ NearPv(e.out.v, Pv(tq, tc), tc)]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "zero" ->
            LET pay == <<[d |-> e.d, has |-> TRUE, v |-> "1"]>>
            IN IF PvDefined(tq, pay) THEN [present_value |-> Ok(e) /\ NearT(e.out.v.pv, Pv(tq, pay), "1E-9"),
                                           knot |-> Ok(e) /\ e.out.v.d = e.d /\ DEq(e.out.v.v, e.price)]
               ELSE [refused |-> ~Ok(e)]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op \in {"new", "add", "become_slice"} -> [in_date_order |-> SamePays(e.out.v, AfterC(e))]
      [] e.op = "slice_any" -> [slice |-> SamePays(e.out.v, CashOf(LET w == SliceSeq(Len(tc), e.i, e.j, e.step) IN [k \in 1..Len(w) |-> tc[w[k]]]))]
      [] e.op = "slice" -> [slice |-> SamePays(e.out.v, SubSeq(tc, e.i + 1, e.j))]
      [] e.op = "observe" ->
            [length |-> e.out.v.len = Len(tc),
             iteration |-> SamePays(e.out.v.iter, tc),
             dates |-> e.out.v.dates = [i \in 1..Len(tc) |-> tc[i].d],
             amounts |-> Len(e.out.v.amounts) = Len(tc)
                         /\ \A i \in 1..Len(tc) : SamePay([e.out.v.amounts[i] EXCEPT !.d = tc[i].d], tc[i]),
             series |-> SamePays(e.out.v.series, tc),
             dataframe |-> SamePays(e.out.v.frame, tc)]
      [] e.op \in {"coll_new", "coll_put"} -> [returned |-> TRUE]
      [] e.op = "coll_observe" ->
            [length |-> e.out.v.len = Len(tk),
             items |-> e.out.v.items = [i \in 1..Len(tk) |-> [k |-> tk[i].k, c |-> tk[i].c]],
             keys |-> e.out.v.keys = Keys(tk),
             list |-> e.out.v.list = [i \in 1..Len(tk) |-> tk[i].c],
             contains |-> \A k \in 1..Len(e.all) : (e.all[k] \in {e.out.v.has[i] : i \in 1..Len(e.out.v.has)}) <=> HasKey(tk, e.all[k])]
      [] e.op = "curve" -> [returned |-> TRUE]

TraceInit == l = 1 /\ tc = <<>> /\ tk = <<>> /\ tq = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN tc' = <<>> /\ tk' = <<>> /\ tq' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ tc' = AfterC(e) /\ tk' = AfterK(e) /\ tq' = AfterQ(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tc, tk, tq>>
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
