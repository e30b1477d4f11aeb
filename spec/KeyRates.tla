------------------------------ MODULE KeyRates ------------------------------
(***************************************************************************)
(* Key rates and collections of key rates.  Key rates are objects: a heap  *)
(* (a sequence, the index is the identity) of [d, dcc, bump, prior, next], *)
(* with 0 for a missing neighbour.  A collection is a sequence of          *)
(* identities in increasing order of their dates, at least one, and        *)
(* linking it sets the neighbours of its members.                          *)
(*   - constructing, += and assignment take the given objects in;          *)
(*   - slices and + make copies, so the operands stay as they are;         *)
(*   - what is refused changes nothing.                                    *)
(***************************************************************************)
EXTENDS Hat, FiniteSets

Same(h, i, j) == h[i].d = h[j].d /\ h[i].dcc = h[j].dcc

CanLink(h, ids) == Len(ids) > 0 /\ \A i \in 1..(Len(ids) - 1) : h[ids[i]].d < h[ids[i + 1]].d

Link(h, ids) ==
    [x \in 1..Len(h) |->
        IF \E i \in 1..Len(ids) : ids[i] = x
        THEN LET i == CHOOSE i \in 1..Len(ids) : ids[i] = x
             IN [h[x] EXCEPT !.prior = IF i = 1 THEN 0 ELSE h[ids[i - 1]].d,
                             !.next = IF i = Len(ids) THEN 0 ELSE h[ids[i + 1]].d]
        ELSE h[x]]

RECURSIVE InsertId(_, _, _), SortIds(_, _), Union2(_, _, _)
InsertId(h, s, x) == IF s = <<>> THEN <<x>>
                     ELSE IF h[s[Len(s)]].d <= h[x].d THEN Append(s, x)
                     ELSE Append(InsertId(h, SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
SortIds(h, s) == IF s = <<>> THEN <<>> ELSE InsertId(h, SortIds(h, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* what the left has stays; of equal ones the first
Union2(h, a, b) == IF b = <<>> THEN a
                   ELSE LET x == Head(b)
                        IN Union2(h, IF \E i \in 1..Len(a) : Same(h, a[i], x) THEN a ELSE Append(a, x), Tail(b))
Union(h, a, b) == SortIds(h, Union2(h, a, b))

\* copies of ids at the end of the heap; their identities
Copies(h, ids) == h \o [i \in 1..Len(ids) |-> h[ids[i]]]
NewIds(h, ids) == [i \in 1..Len(ids) |-> Len(h) + i]

Drop(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j, Len(s))      \* without positions i..j-1

CanSet(h, ids, i, x) == /\ i > 1 => h[ids[i - 1]].d < h[x].d
                        /\ i < Len(ids) => h[x].d < h[ids[i + 1]].d

Bump(h, ids, b) == [x \in 1..Len(h) |-> IF \E i \in 1..Len(ids) : ids[i] = x THEN [h[x] EXCEPT !.bump = b] ELSE h[x]]

SumAt(h, ids, o) == DSum([i \in 1..Len(ids) |-> HatAt(h[ids[i]], o)])

Linked2(h, ids) ==
    \A i \in 1..Len(ids) : /\ h[ids[i]].prior = (IF i = 1 THEN 0 ELSE h[ids[i - 1]].d)
                           /\ h[ids[i]].next = (IF i = Len(ids) THEN 0 ELSE h[ids[i + 1]].d)
=============================================================================
