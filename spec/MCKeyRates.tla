----------------------------- MODULE MCKeyRates -----------------------------
(* Every history of a collection up to a depth, over key rates of a few     *)
(* dates and two day counts.  Printed for the real code.                   *)
EXTENDS KeyRates, TLC, Json
CONSTANTS Depth, Dates
VARIABLES vheap, vcol, vh
vars == <<vheap, vcol, vh>>
D0 == 738000
New(x, c) == [d |-> D0 + 10 * x, dcc |-> c, bump |-> "1", prior |-> 0, next |-> 0]
Kinds == {[x |-> x, c |-> "ACTUAL_OVER_365"] : x \in 1..Dates} \cup {[x |-> 2, c |-> "ACTUAL_OVER_360"]}
Say(op, x, c, i) == vh' = Append(vh, [op |-> op, x |-> x, c |-> c, i |-> i])
Init == \E k \in Kinds : /\ vheap = <<New(k.x, k.c)>> /\ vcol = <<1>> /\ vh = <<[op |-> "new", x |-> k.x, c |-> k.c, i |-> 0]>>
Take(k, keep(_, _), op, i) ==
    LET h == Append(vheap, New(k.x, k.c))
    IN keep(h, Len(h)) /\ Say(op, k.x, k.c, i)
Iadd == \E k \in Kinds :
    LET h == Append(vheap, New(k.x, k.c))
        u == Union(h, vcol, <<Len(h)>>)
    IN /\ Say("iadd", k.x, k.c, 0)
       /\ IF CanLink(h, u) THEN vheap' = Link(h, u) /\ vcol' = u ELSE vheap' = h /\ vcol' = vcol
Set == \E k \in Kinds, i \in 1..Len(vcol) :
    LET h == Append(vheap, New(k.x, k.c))
        u == [vcol EXCEPT ![i] = Len(h)]
    IN /\ Say("set", k.x, k.c, i)
       /\ IF CanSet(h, vcol, i, Len(h)) THEN vheap' = Link(h, u) /\ vcol' = u ELSE vheap' = h /\ vcol' = vcol
Del == \E i \in 1..Len(vcol) :
    LET u == Drop(vcol, i, i + 1)
    IN /\ Say("del", 0, "", i)
       /\ IF u # <<>> THEN vheap' = Link(vheap, u) /\ vcol' = u ELSE UNCHANGED <<vheap, vcol>>
Next == Len(vh) < Depth /\ (Iadd \/ Set \/ Del)
Spec == Init /\ [][Next]_vars

Ordered == CanLink(vheap, vcol)
NeighboursSet == Linked2(vheap, vcol)
NoDuplicates == \A i, j \in 1..Len(vcol) : i # j => vheap[vcol[i]].d # vheap[vcol[j]].d
\* with one day count and bump the hats add up to the bump everywhere
Unity == (\A i \in 1..Len(vcol) : vheap[vcol[i]].dcc = "ACTUAL_OVER_365")
         => \A o \in {D0 + 5 * j : j \in 0..(2 * Dates + 3)} : DClose(SumAt(vheap, vcol, o), "1", "1E-30", "1E-30")
\* a hat is its bump at its date, never outside [0, bump], and nothing at the dates of the others
Hats == \A i \in 1..Len(vcol) : \A o \in {D0 + 5 * j : j \in 0..(2 * Dates + 3)} :
          LET h == vheap[vcol[i]]
              y == HatAt(h, o)
          IN /\ DLe("0", y) /\ DLe(y, h.bump)
             /\ o = h.d => DEq(y, h.bump)
             /\ (\E j \in 1..Len(vcol) : j # i /\ vheap[vcol[j]].d = o) => DEq(y, "0")
Emit == Len(vh) = Depth => PrintT("VBEH " \o ToJson(vh))
=============================================================================
