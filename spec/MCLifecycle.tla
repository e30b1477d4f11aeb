------------------------------ MODULE MCLifecycle ------------------------------
(* What a sample path object holds, over all histories up to a depth:       *)
(* the path is that of the last generation kept, gone with a new increment; *)
(* an integral or a discount curve held is one of the path held.  The       *)
(* histories are printed for replay.                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Kind
VARIABLES vp, vi, vd, vh      \* path held (0: none, else the number of its generation), paths of the integral and of the curve held, history
vars == <<vp, vi, vd, vh>>
Init == vp = 0 /\ vi = 0 /\ vd = 0 /\ vh = <<>>
Op(o, s, r) == vh' = Append(vh, [op |-> o, set |-> s, r |-> r])
Generate == \E s \in BOOLEAN, r \in {1, 2} :
    /\ Op("generate", s, r)
    /\ IF s THEN vp' = Len(vh) + 1 /\ vi' = 0 /\ vd' = 0 ELSE UNCHANGED <<vp, vi, vd>>
Increment == Kind # "brownian" /\ Op("set_dt", FALSE, 0) /\ vp' = 0 /\ vi' = 0 /\ vd' = 0
Ask == Op("at", FALSE, 0) /\ UNCHANGED <<vp, vi, vd>>
Integral == Kind = "short" /\ \E r \in {1, 2} : Op("integral", FALSE, r) /\ vi' = vp /\ UNCHANGED <<vp, vd>>
Accrual == Kind = "short" /\ Op("accrual", FALSE, 1) /\ vi' = vp /\ UNCHANGED <<vp, vd>>
Discount == Kind = "short" /\ Op("discount", FALSE, 1) /\ vi' = vp /\ vd' = vp /\ UNCHANGED vp
Next == Len(vh) < Depth /\ (Generate \/ Increment \/ Ask \/ Integral \/ Accrual \/ Discount)
Spec == Init /\ [][Next]_vars
Kept == {i \in 1..Len(vh) : vh[i].op = "generate" /\ vh[i].set /\ \A j \in (i + 1)..Len(vh) : vh[j].op # "set_dt"}
PathIsLast == vp = IF Kept = {} THEN 0 ELSE CHOOSE i \in Kept : \A j \in Kept : j <= i
NothingStale == vi \in {0, vp} /\ vd \in {0, vi}
Emit == Len(vh) = Depth => PrintT("VBEH " \o ToJson(vh))
=============================================================================
