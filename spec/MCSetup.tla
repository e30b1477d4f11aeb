---- MODULE MCSetup ----
(* the arithmetic works in this environment *)
EXTENDS Dec, TLC
ASSUME DClose(DExp(DLn("2.5")), "2.5", "1E-30", "0") /\ DEq(DAdd("0.1", "0.2"), "0.3")
VARIABLE x
Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
====
