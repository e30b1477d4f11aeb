-------------------------------- MODULE MCLegs --------------------------------
(* The legs a swap stores, over all histories up to a depth: a leg is what  *)
(* was last generated to be stored; the histories are printed for replay.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES vx, vl, vh      \* fixed stored?, floating stored (0: no, i: from rate i), history
vars == <<vx, vl, vh>>
Init == vx = FALSE /\ vl = 0 /\ vh = <<>>
Op(o) == vh' = Append(vh, o)
Fixed == \E s \in BOOLEAN : Op([op |-> "fixed", set |-> s, r |-> 0]) /\ vx' = (vx \/ s) /\ UNCHANGED vl
Float == \E s \in BOOLEAN, r \in {1, 2}, o \in {"float", "implied"} :
            Op([op |-> o, set |-> s, r |-> r]) /\ vl' = (IF s THEN r ELSE vl) /\ UNCHANGED vx
Value == Op([op |-> "pv", set |-> FALSE, r |-> 0]) /\ UNCHANGED <<vx, vl>>
Next == Len(vh) < Depth /\ (Fixed \/ Float \/ Value)
Spec == Init /\ [][Next]_vars
LastSet == LET s == {i \in 1..Len(vh) : vh[i].op \in {"float", "implied"} /\ vh[i].set}
           IN vl = IF s = {} THEN 0 ELSE vh[CHOOSE i \in s : \A j \in s : j <= i].r
FixedSet == vx = (\E i \in 1..Len(vh) : vh[i].op = "fixed" /\ vh[i].set)
Emit == Len(vh) = Depth => PrintT("VBEH " \o ToJson(vh))
=============================================================================
