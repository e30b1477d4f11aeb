---------------------------- MODULE TracePortfolio ----------------------------
(* Conformance of portfolios.  State: the entries [q, inst, id, knot], the  *)
(* cash, how far next() has come, the curve that values it.                *)
EXTENDS TraceBase, Cashflow, Holidays

VARIABLES l, pf, ca, ix, dq, ys
vars == <<l, pf, ca, ix, dq, ys>>

\* what the holder of an instrument at a date receives
ReceivedAt(inst, ref) ==
    IF inst.conv = "NONE" THEN inst.pay
    ELSE LET s == Settlement(US, inst.conv, ref)
         IN [i \in 1..Len(inst.pay) |-> [inst.pay[i] EXCEPT !.has = inst.pay[i].u >= s]]
Value1(q, x) == Pv(q, ReceivedAt(x.inst, q.c.ref.d))
PortfolioPv(p, c, q) == DAdd(c, DSum([i \in 1..Len(p) |-> DMul(p[i].q, Value1(q, p[i]))]))
ValueDefined(p, q) == \A i \in 1..Len(p) : PvDefined(q, ReceivedAt(p[i].inst, q.c.ref.d))
Size(p) == DSum([i \in 1..Len(p) |-> DMul(DAbs(p[i].q), DSum([j \in 1..Len(p[i].inst.pay) |-> DAbs(p[i].inst.pay[j].v)]))])
NearPv(a, b, p, c) == DClose(a, b, "1E-9", DMul("1E-12", DAdd(DAdd("1", DAbs(c)), Size(p))))

\* one key rate per date, in order, each between its neighbours
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Ascending(S \ {x})
KeyRatesOf(p, dcc) ==
    LET ds == Ascending({p[i].knot : i \in 1..Len(p)})
    IN [i \in 1..Len(ds) |-> [d |-> ds[i], dcc |-> dcc, prior |-> IF i = 1 THEN 0 ELSE ds[i - 1], next |-> IF i = Len(ds) THEN 0 ELSE ds[i + 1]]]
SameKeyRates(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
    a[i].d = b[i].d /\ a[i].dcc = b[i].dcc /\ a[i].prior = b[i].prior /\ a[i].next = b[i].next /\ DEq(a[i].bump, "0.0001")

Snap(e) == Snapshot("CONTINUOUSLY_COMPOUNDED_YIELD", ys.c, ys.p, e.adj)
\* values of the portfolio for a hat half a basis point up and down
Shifted(p, c, h, b) == PortfolioPv(p, c, Snapshot("CONTINUOUSLY_COMPOUNDED_YIELD", ys.c, ys.p,
                                                  [kind |-> "keyrates", hats |-> <<[d |-> h.d, dcc |-> h.dcc, prior |-> h.prior, next |-> h.next, bump |-> b]>>]))
Pv01(p, c, h) == DSub(Shifted(p, c, h, "0.00005"), Shifted(p, c, h, "-0.00005"))

Clauses(e) ==
    CASE e.op = "pv" ->
            IF ValueDefined(pf, dq) THEN [present_value |-> Ok(e) /\ NearPv(e.out.v, PortfolioPv(pf, ca, dq), pf, ca)]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "pv_yield" ->
            LET q == Snap(e) IN
            IF ValueDefined(pf, q) THEN [present_value |-> Ok(e) /\ NearPv(e.out.v, PortfolioPv(pf, ca, q), pf, ca)]
            ELSE [refused |-> ~Ok(e)]
      [] e.op = "key_rates" /\ pf = <<>> -> [refused |-> TRUE]
      [] ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "new" -> [entries |-> e.out.v.q = [i \in 1..Len(e.entries) |-> e.entries[i].q] /\ e.out.v.id = [i \in 1..Len(e.entries) |-> e.entries[i].id],
                          cash |-> DEq(e.out.v.cash, e.cash)]
      [] e.op \in {"set_cash", "append", "discount", "yield_curve"} -> [returned |-> TRUE]
      [] e.op = "look" -> [entries |-> e.out.v.id = [i \in 1..Len(pf) |-> pf[i].id] /\ e.out.v.q = [i \in 1..Len(pf) |-> pf[i].q],
                           again |-> e.out.v.again = e.out.v.id,
                           cash |-> DEq(e.out.v.cash, ca)]
      [] e.op = "next" -> [next |-> e.out.v = (IF ix < Len(pf) THEN pf[ix + 1].id ELSE 0)]
      [] e.op = "key_rates" -> [key_rates |-> SameKeyRates(e.out.v, KeyRatesOf(pf, e.dcc))]
      [] e.op = "ladder" ->
            LET ks == KeyRatesOf(pf, e.dcc)
            IN [dates |-> e.out.v.d = [i \in 1..Len(ks) |-> ks[i].d],
                pv01s |-> Len(e.out.v.v) = Len(ks) /\ \A i \in 1..Len(ks) :
                             DClose(e.out.v.v[i], Pv01(pf, ca, ks[i]), "1E-7", DMul("1E-12", DAdd(DAdd("1", DAbs(ca)), Size(pf))))]

TraceInit == l = 1 /\ pf = <<>> /\ ca = "0" /\ ix = 0 /\ dq = <<>> /\ ys = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN pf' = <<>> /\ ca' = "0" /\ ix' = 0 /\ dq' = <<>> /\ ys' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ pf' = CASE e.op = "new" -> e.entries [] e.op = "append" -> Append(pf, e.entry) [] OTHER -> pf
               /\ ca' = IF e.op \in {"new", "set_cash"} THEN e.cash ELSE ca
               /\ ix' = CASE e.op = "new" -> 0
                          [] e.op = "next" -> IF ix < Len(pf) THEN ix + 1 ELSE 0
                          [] OTHER -> ix
               /\ dq' = IF e.op = "discount" THEN LET c == [e.curve EXCEPT !.knots = SortKnots(e.curve.knots)]
                                                  IN [space |-> "DISCOUNT_FACTOR", c |-> c, p |-> Prepared(c), adj |-> NoAdj]
                        ELSE dq
               /\ ys' = IF e.op = "yield_curve" THEN LET c == [e.curve EXCEPT !.knots = SortKnots(e.curve.knots)] IN [c |-> c, p |-> Prepared(c)]
                        ELSE ys
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
