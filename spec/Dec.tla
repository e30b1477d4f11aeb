-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.                                  *)
(*                                                                         *)
(* TLC's integers have 32 bits and there are no reals, so a number is a    *)
(* "Dec": a string in decimal notation ("0.025", "-1.5E-7").  An integer   *)
(* is accepted wherever a Dec is.  Results are rounded to 40 significant   *)
(* digits; the checked code computes with about 16, so the rounding of the *)
(* specification is far below every tolerance used.                        *)
(*                                                                         *)
(* The operators below are evaluated by java/DecOps.java; the bodies here  *)
(* are declarations only.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsDec(a) == CHOOSE b \in BOOLEAN : TRUE    \* a denotes a (finite) number
DInt(n) == CHOOSE s \in STRING : TRUE      \* the integer n as a Dec
DAdd(a, b) == CHOOSE s \in STRING : TRUE
DSub(a, b) == CHOOSE s \in STRING : TRUE
DMul(a, b) == CHOOSE s \in STRING : TRUE
DDiv(a, b) == CHOOSE s \in STRING : TRUE
DNeg(a) == CHOOSE s \in STRING : TRUE
DAbs(a) == CHOOSE s \in STRING : TRUE
DCmp(a, b) == CHOOSE n \in {-1, 0, 1} : TRUE
DFloor(a) == CHOOSE n \in Int : TRUE
DSum(s) == CHOOSE t \in STRING : TRUE      \* sum of a sequence of Decs
DDot(s, t) == CHOOSE u \in STRING : TRUE   \* sum of products
DExp(a) == CHOOSE s \in STRING : TRUE
DLn(a) == CHOOSE s \in STRING : TRUE
DPow(a, b) == CHOOSE s \in STRING : TRUE   \* b integral, or a > 0
DSqrt(a) == CHOOSE s \in STRING : TRUE

\* |a - b| <= abs + rel * max(|a|, |b|); FALSE if a or b is not a number
DClose(a, b, rel, abs) == CHOOSE c \in BOOLEAN : TRUE

\* matrices are sequences of rows
MMul(a, b) == CHOOSE m \in Seq(Seq(STRING)) : TRUE
MExp(a) == CHOOSE m \in Seq(Seq(STRING)) : TRUE      \* matrix exponential
MSolve(a, b) == CHOOSE m \in Seq(Seq(STRING)) : TRUE \* x with a x = b

----------------------------------------------------------------------------
DLt(a, b) == DCmp(a, b) < 0
DLe(a, b) == DCmp(a, b) <= 0
DEq(a, b) == DCmp(a, b) = 0
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DSign(a) == DCmp(a, "0")

\* the default comparison of a computed value with a recorded one
Near(a, b) == DClose(a, b, "1E-9", "1E-11")
NearT(a, b, tol) == DClose(a, b, tol, tol)

MTranspose(a) == [j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]]
MAdd(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> DAdd(a[i][j], b[i][j])]]
MSub(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> DSub(a[i][j], b[i][j])]]
MScale(c, a) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> DMul(c, a[i][j])]]
MIdent(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
MZero(n, m) == [i \in 1..n |-> [j \in 1..m |-> "0"]]
MNear(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j])
VNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
VNearT(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearT(a[i], b[i], tol)
=============================================================================
