-------------------------------- MODULE Default --------------------------------
(***************************************************************************)
(* Default simulated in steps.  A run is a record                          *)
(*   hazard (a hazard rate), dt (step), maturity, exact (steps add up      *)
(*   without rounding).                                                    *)
(* A name that has survived so far defaults at the time k*dt, before       *)
(* maturity, with probability hazard(k*dt)*dt: never if that is not        *)
(* positive, surely if it is one or more.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Dec

\* hazard rates: constant a; a before t0 and b from then on; a + b t
HazardAt(h, t) ==
    CASE h.kind = "constant" -> h.a
      [] h.kind = "step" -> IF DLt(t, h.t0) THEN h.a ELSE h.b
      [] h.kind = "linear" -> DAdd(h.a, DMul(h.b, t))

StepTime(x, k) == DMul(DInt(k), x.dt)
\* probability of default at step k of a name alive before it
Jump(x, k) == DMax("0", DMin("1", DMul(HazardAt(x.hazard, StepTime(x, k)), x.dt)))

\* steps strictly before maturity; the one at maturity itself (to rounding) may or may not be counted in
Tiny == "1E-9"
AtMaturity(x, k) == ~x.exact /\ DClose(StepTime(x, k), x.maturity, Tiny, Tiny)
Before(x, k) == DLt(StepTime(x, k), x.maturity) /\ ~AtMaturity(x, k)
RECURSIVE LastStep(_, _)
LastStep(x, k) == IF Before(x, k + 1) THEN LastStep(x, k + 1) ELSE k
Steps(x) == LastStep(x, 0)

\* <<mass alive after step i-1, ...>>: alive[1] = 1, alive[k + 1] = alive[k] (1 - Jump(k))
RECURSIVE AliveUpTo(_, _, _)
AliveUpTo(x, k, s) == IF k > Steps(x) THEN s ELSE AliveUpTo(x, k + 1, Append(s, DMul(s[k], DSub("1", Jump(x, k)))))
Alive(x) == AliveUpTo(x, 1, <<"1">>)
\* probability of defaulting at each step, and of never defaulting
DefaultMass(x) == LET a == Alive(x) IN [k \in 1..Steps(x) |-> DMul(a[k], Jump(x, k))]
SurvivalMass(x) == LET a == Alive(x) IN a[Len(a)]
=============================================================================
