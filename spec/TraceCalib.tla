------------------------------- MODULE TraceCalib -------------------------------
(* Conformance of the two-stage calibrator.  State: the market (volatilities and prices at times from the start), and for how many
   searches in a row, for each of the two stages, no start from far off was improved on so far. *)
EXTENDS TraceBase, Calibration

DC == INSTANCE DayCount
PR == INSTANCE Process

VARIABLES l, mv, mp, run
vars == <<l, mv, mp, run>>

\* no worse than before, to the rounding of the losses
NoWorse(now, was) == DLe(now, DAdd(DMul(was, "1.000001"), "1E-9"))
\* from far off, a good deal better: a local search may get stuck now and then, but not every time
Far == "0.005"
Stuck(now, was) == ~DLt(was, Far) /\ ~DLe(now, DMul("0.8", was))
Moved(now, was) == ~DLt(was, Far) /\ DLe(now, DMul("0.8", was))
Count(n, now, was) == IF Moved(now, was) THEN -1000 ELSE IF Stuck(now, was) THEN n + 1 ELSE n
\* losses before and after, of the stages of an event
VolWas(e) == VolLoss(e.given, mv)
VolNow(e) == VolLoss([e.given EXCEPT !.vol = IF e.op = "volatility" THEN e.out.v.x ELSE e.out.v.dict.vol], mv)
ShapeWas(e) == PriceLoss(IF e.op = "shape" THEN e.given ELSE [e.given EXCEPT !.vol = e.out.v.dict.vol], mp)
ShapeNow(e) == PriceLoss(IF e.op = "shape" THEN [e.given EXCEPT !.shape = <<e.out.v.x[1]>>, !.state = SubSeq(e.out.v.x, 2, Len(e.out.v.x))]
                         ELSE [e.given EXCEPT !.vol = e.out.v.dict.vol, !.shape = e.out.v.dict.shape, !.state = e.out.v.dict.state], mp)
SameLoss(a, b) == DClose(a, b, "1E-5", "1E-8")
Inside(ps) == \A i \in 1..Len(ps) : DLe("0.0000999", ps[i]) /\ DLe(ps[i], "0.9999001")
\* the price formula asks for distinct reversion speeds
Distinct(p) == LET s == Speeds(p) IN Len(s) = 1 \/ ~DClose(s[1], s[2], "1E-3", "1E-6")
P(kind, v) == [kind |-> kind, vol |-> v.vol, shape |-> v.shape, state |-> v.state]

Clauses(e) ==
    CASE ~Ok(e) -> [returned |-> FALSE]
      [] e.op = "volatility" ->
            LET was == e.given
                now == [was EXCEPT !.vol = e.out.v.x]
                loss == VolLoss(now, mv)
            IN IF ~Distinct(now) THEN [open |-> TRUE]
               ELSE [kept |-> VNear(e.out.v.dict.vol, e.out.v.x) /\ VNear(e.out.v.own.vol, e.out.v.x),
                     others |-> e.out.v.dict.shape = was.shape /\ e.out.v.dict.state = was.state /\ VNear(e.out.v.own.shape, was.shape),
                     bounds |-> Inside(e.out.v.x),
                     reported |-> SameLoss(e.out.v.loss, loss),
                     fit |-> NoWorse(loss, VolLoss(was, mv)),
                     improved |-> e.again \/ Count(run.v, loss, VolLoss(was, mv)) < 3]
      [] e.op = "shape" ->
            LET was == e.given
                now == [was EXCEPT !.shape = <<e.out.v.x[1]>>, !.state = SubSeq(e.out.v.x, 2, Len(e.out.v.x))]
                loss == PriceLoss(now, mp)
            IN IF ~Distinct(was) THEN [open |-> TRUE]
               ELSE
               [kept |-> /\ VNear(e.out.v.dict.shape, now.shape) /\ VNear(e.out.v.dict.state, now.state)
                         /\ VNear(e.out.v.own.shape, now.shape) /\ VNear(e.out.v.own.state, now.state),
                others |-> e.out.v.dict.vol = was.vol /\ VNear(e.out.v.own.vol, was.vol),
                reported |-> SameLoss(e.out.v.loss, loss),
                fit |-> NoWorse(loss, PriceLoss(was, mp)),
                improved |-> e.again \/ Count(run.p, loss, PriceLoss(was, mp)) < 3]
      [] e.op = "calibrate" ->
            LET was == e.given
                now == P(was.kind, e.out.v.dict)
                between == [was EXCEPT !.vol = now.vol]
            IN IF ~Distinct(now) THEN [open |-> TRUE]
               ELSE [model |-> /\ VNear(e.out.v.own.vol, now.vol) /\ VNear(e.out.v.own.shape, now.shape) /\ VNear(e.out.v.own.state, now.state),
                     volatilities |-> \A i \in 1..Len(mv) : NearT(e.out.v.vols[i], Vol(now, mv[i].t), "1E-7"),
                     prices |-> \A i \in 1..Len(mp) : NearT(e.out.v.prices[i], BondPrice(now, mp[i].t), "1E-7"),
                     volatility_fit |-> NoWorse(VolLoss(now, mv), VolLoss(was, mv)),
                     volatility_improved |-> e.again \/ Count(run.v, VolLoss(now, mv), VolLoss(was, mv)) < 3,
                     price_fit |-> NoWorse(PriceLoss(now, mp), PriceLoss(between, mp)),
                     price_improved |-> e.again \/ Count(run.p, PriceLoss(now, mp), PriceLoss(between, mp)) < 3,
                     span |-> e.out.v.start = e.start /\ e.out.v.end = e.end,
                     path |-> e.out.v.steps = Len(PR!Grid(e.start, e.end, e.inc)) - 1]

Pts(e, s) == [i \in 1..Len(s) |-> [t |-> DC!Accrual(e.dcc, e.start, s[i].t), v |-> s[i].v]]

Counted(e) ==
    IF ~Ok(e) \/ e.again \/ ~Distinct(e.given) \/ (e.op # "shape" /\ ~Distinct(IF e.op = "volatility" THEN [e.given EXCEPT !.vol = e.out.v.x] ELSE P(e.given.kind, e.out.v.dict)))
    THEN run
    ELSE [v |-> IF e.op = "shape" THEN run.v ELSE Count(run.v, VolNow(e), VolWas(e)),
          p |-> IF e.op = "volatility" THEN run.p ELSE Count(run.p, ShapeNow(e), ShapeWas(e))]
None == [v |-> 0, p |-> 0]

TraceInit == l = 1 /\ mv = <<>> /\ mp = <<>> /\ run = None
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.op = "begin" THEN mv' = <<>> /\ mp' = <<>> /\ run' = None
          ELSE IF e.op = "market" THEN mv' = AF!Force(Pts(e, e.vols)) /\ mp' = AF!Force(Pts(e, e.prices)) /\ run' = None
          ELSE Report(l, Failing(Clauses(e))) /\ UNCHANGED <<mv, mp>> /\ run' = Counted(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("VDONE " \o ToString(Len(Trace)))
=============================================================================
