------------------------------- MODULE MCDefault -------------------------------
(* A name lives step by step under every sequence of jump probabilities from a small set: the tree of outcomes carries *)
(* the masses of the closed form, and they add up to one.                                                              *)
EXTENDS Default, FiniteSets

CONSTANT Depth
VARIABLES k, path, alive, dead      \* step, the probabilities so far, mass alive, masses defaulted at each step
vars == <<k, path, alive, dead>>

Rates == {"-1", "0", "0.5", "1.25", "2", "3"}
Half == "0.5"
Init == k = 0 /\ path = <<>> /\ alive = "1" /\ dead = <<>>
Step(r) ==
    LET p == DMax("0", DMin("1", DMul(r, Half)))
    IN /\ k' = k + 1
       /\ path' = Append(path, r)
       /\ dead' = Append(dead, DMul(alive, p))
       /\ alive' = DSub(alive, dead'[k + 1])
Next == k < Depth /\ \E r \in Rates : Step(r)
Spec == Init /\ [][Next]_vars

\* rates that are constant, then constant again, are the step hazards of the closed form
Changes == {i \in 2..Len(path) : path[i] # path[i - 1]}
AsStep == IF Changes = {} THEN [kind |-> "constant", a |-> IF path = <<>> THEN "0" ELSE path[1]]
          ELSE LET i == CHOOSE j \in Changes : TRUE
               IN [kind |-> "step", a |-> path[1], b |-> path[Len(path)], t0 |-> DMul(DSub(DInt(i), Half), Half)]
Run == [hazard |-> AsStep, dt |-> Half, maturity |-> DAdd(DMul(DInt(k), Half), "0.25"), exact |-> TRUE]

MassIsOne == DEq(DAdd(alive, DSum(dead)), "1")
NonNegative == DLe("0", alive) /\ \A i \in 1..k : DLe("0", dead[i])
ClosedForm == Cardinality(Changes) <= 1 =>
    /\ Steps(Run) = k
    /\ DEq(SurvivalMass(Run), alive)
    /\ \A i \in 1..k : DEq(DefaultMass(Run)[i], dead[i])
SureDefault == (\E i \in 1..k : DLe("2", path[i])) => DEq(alive, "0")
OnlyForward == [][\A i \in 1..k : dead'[i] = dead[i]]_vars
=============================================================================
