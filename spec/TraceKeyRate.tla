----------------------------- MODULE TraceKeyRate -----------------------------
(* Conformance of key rates and collections of key rates.                  *)
(* State: the heap of key rates, the collections made so far.              *)
EXTENDS TraceBase, KeyRates, PySlices

VARIABLES l, kh, kc,
          kp   \* how far each collection has been stepped through with next()
vars == <<l, kh, kc, kp>>

Pos(e, n) == IF e.i < 0 THEN n + e.i + 1 ELSE e.i + 1
Fresh(e) == [d |-> e.d, dcc |-> e.dcc, bump |-> e.bump, prior |-> e.prior, next |-> e.next]
Col(e) == kc[e.c]
\* the members a slice [i:j:step] takes, in the order of the collection
Places(e) == SliceSet(Len(Col(e)), e.i, e.j, e.step)
Taken(e) == LET ps == Places(e)
                c == Col(e)
                take == SelectSeq([p \in 1..Len(c) |-> p], LAMBDA p : p \in ps)
            IN [k \in 1..Len(take) |-> c[take[k]]]
Left(e) == LET ps == Places(e)
               c == Col(e)
               keep == SelectSeq([p \in 1..Len(c) |-> p], LAMBDA p : p \notin ps)
           IN [k \in 1..Len(keep) |-> c[keep[k]]]

Allowed(e) ==
    CASE e.op = "set_prior" -> e.x = 0 \/ e.x < kh[e.id].d
      [] e.op = "set_next" -> e.x = 0 \/ e.x > kh[e.id].d
      [] e.op = "new" -> CanLink(kh, SortIds(kh, e.ids))
      [] e.op = "iadd" -> CanLink(kh, Union(kh, Col(e), e.ids))
      [] e.op = "add" -> CanLink(kh, Union(kh, Col(e), kc[e.c2]))
      [] e.op = "slice" -> Places(e) # {}
      [] e.op = "set" -> Pos(e, Len(Col(e))) \in 1..Len(Col(e)) /\ CanSet(kh, Col(e), Pos(e, Len(Col(e))), e.id)
      [] e.op \in {"del", "pop"} -> Pos(e, Len(Col(e))) \in 1..Len(Col(e)) /\ Len(Col(e)) > 1
      [] e.op = "del_slice" -> Len(Left(e)) > 0
      [] e.op = "bad" -> FALSE
      [] e.op = "step" -> kp[e.c] < Len(Col(e))
      [] e.op = "index" -> \E i \in 1..Len(Col(e)) : Same(kh, Col(e)[i], e.id)
      [] e.op = "remove" -> Len(Col(e)) > 1 /\ \E i \in 1..Len(Col(e)) : Same(kh, Col(e)[i], e.id)
      [] OTHER -> TRUE

\* the collection after the event (where it is one)
NewCol(e) ==
    CASE e.op = "new" -> SortIds(kh, e.ids)
      [] e.op = "iadd" -> Union(kh, Col(e), e.ids)
      [] e.op = "add" -> LET u == Union(kh, Col(e), kc[e.c2]) IN NewIds(kh, u)
      [] e.op = "slice" -> LET u == Taken(e) IN NewIds(kh, u)
      [] e.op = "set" -> [Col(e) EXCEPT ![Pos(e, Len(Col(e)))] = e.id]
      [] e.op \in {"del", "pop"} -> LET p == Pos(e, Len(Col(e))) IN Drop(Col(e), p, p + 1)
      [] e.op = "del_slice" -> Left(e)
      [] e.op = "remove" -> LET p == CHOOSE i \in 1..Len(Col(e)) : Same(kh, Col(e)[i], e.id) IN Drop(Col(e), p, p + 1)

Making == {"new", "add", "slice"}
Changing == {"iadd", "set", "del", "pop", "del_slice", "remove"}

NextHeap(e) ==
    CASE e.op = "make" -> Append(kh, Fresh(e))
      [] ~Allowed(e) -> kh
      [] e.op = "set_prior" -> [kh EXCEPT ![e.id].prior = e.x]
      [] e.op = "set_next" -> [kh EXCEPT ![e.id].next = e.x]
      [] e.op = "set_bump" -> [kh EXCEPT ![e.id].bump = e.x]
      [] e.op = "bump_all" -> Bump(kh, Col(e), e.x)
      [] e.op = "add" -> Link(Copies(kh, Union(kh, Col(e), kc[e.c2])), NewCol(e))
      [] e.op = "slice" -> Link(Copies(kh, Taken(e)), NewCol(e))
      [] e.op \in {"new"} \cup Changing -> Link(kh, NewCol(e))
      [] OTHER -> kh

NextCols(e) ==
    CASE ~Allowed(e) -> kc
      [] e.op \in Making -> Append(kc, NewCol(e))
      [] e.op \in Changing -> [kc EXCEPT ![e.c] = NewCol(e)]
      [] OTHER -> kc

NextPos(e) ==
    CASE e.op = "step" -> [kp EXCEPT ![e.c] = IF Allowed(e) THEN @ + 1 ELSE 0]
      [] e.op \in Making /\ Allowed(e) -> Append(kp, 0)
      [] OTHER -> kp

SameKr(a, b) == a.d = b.d /\ a.dcc = b.dcc /\ DEq(a.bump, b.bump) /\ a.prior = b.prior /\ a.next = b.next
Looks(h, ids, v) == Len(v) = Len(ids) /\ \A i \in 1..Len(ids) : SameKr(v[i], h[ids[i]])

Clauses(e) ==
    CASE e.op = "step" /\ ~Allowed(e) -> [exhausted |-> ~Ok(e) /\ e.out.err = "StopIteration"]
      [] ~Allowed(e) -> [refused |-> ~Ok(e)]
      [] e.op = "get" ->
            LET p == Pos(e, Len(Col(e)))
            IN IF p \in 1..Len(Col(e)) THEN [member |-> Ok(e) /\ SameKr(e.out.v, kh[Col(e)[p]])]
               ELSE [refused |-> ~Ok(e)]
      [] ~Ok(e) -> [accepted |-> FALSE]
      [] e.op = "step" -> [member |-> SameKr(e.out.v, kh[Col(e)[kp[e.c] + 1]])]
      [] e.op = "index" -> [first_place |-> /\ e.out.v + 1 \in 1..Len(Col(e))
                                            /\ Same(kh, Col(e)[e.out.v + 1], e.id)
                                            /\ \A i \in 1..e.out.v : ~Same(kh, Col(e)[i], e.id)]
      [] e.op \in {"make", "set_prior", "set_next", "set_bump"} ->
            LET h == NextHeap(e)
            IN [key_rate |-> SameKr(e.out.v, h[IF e.op = "make" THEN Len(h) ELSE e.id])]
      [] e.op \in Making \cup Changing \cup {"bump_all"} ->
            LET h == NextHeap(e)
                c == IF e.op \in Making THEN NextCols(e)[Len(kc) + 1] ELSE NextCols(e)[e.c]
            IN [members |-> Looks(h, c, e.out.v)]
      [] e.op = "at" -> [hat |-> Len(e.out.v) = Len(e.at) /\ \A i \in 1..Len(e.at) : Near(e.out.v[i], HatAt(kh[e.id], e.at[i]))]
      [] e.op = "sum_at" -> [sum_of_hats |-> Len(e.out.v) = Len(e.at)
                                             /\ \A i \in 1..Len(e.at) : Near(e.out.v[i], SumAt(kh, Col(e), e.at[i]))]
      [] e.op = "look" -> [members |-> Looks(kh, Col(e), e.out.v.list),
                           length |-> e.out.v.len = Len(Col(e)),
                           backwards |-> LET c == Col(e) IN Looks(kh, [i \in 1..Len(c) |-> c[Len(c) + 1 - i]], e.out.v.reversed),
                           truth |-> e.out.v.truth,
                           first |-> Len(e.out.v.list) > 0]
      [] e.op = "compare" ->
            LET a == kh[e.a]
                b == kh[e.b]
            IN [equality |-> e.out.v.eq = Same(kh, e.a, e.b),
                hash |-> Same(kh, e.a, e.b) => e.out.v.hash,
                order |-> /\ e.out.v.lt = (a.d < b.d) /\ e.out.v.le = (a.d <= b.d)
                          /\ e.out.v.gt = (a.d > b.d) /\ e.out.v.ge = (a.d >= b.d)]
      [] e.op = "contains" -> [contains |-> e.out.v.has = (\E i \in 1..Len(Col(e)) : Same(kh, Col(e)[i], e.id)),
                               count |-> e.out.v.count = Cardinality({i \in 1..Len(Col(e)) : Same(kh, Col(e)[i], e.id)})]
      [] e.op = "equal" -> [equality |-> e.out.v = (Len(Col(e)) = Len(kc[e.c2])
                                                    /\ \A i \in 1..Len(Col(e)) : Same(kh, Col(e)[i], kc[e.c2][i]))]

TraceInit == l = 1 /\ kh = <<>> /\ kc = <<>> /\ kp = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN kh' = <<>> /\ kc' = <<>> /\ kp' = <<>>
          ELSE /\ Report(l, Failing(Clauses(e)))
               /\ kh' = NextHeap(e) /\ kc' = NextCols(e) /\ kp' = NextPos(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
