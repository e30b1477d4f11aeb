--------------------------------- MODULE Hat ---------------------------------
(***************************************************************************)
(* The adjustment of one key rate: its bump at its date, falling linearly  *)
(* (by its day count) to nothing at the dates of its neighbours, and       *)
(* staying flat on a side that has no neighbour.  A missing neighbour is   *)
(* the date 0.                                                             *)
(***************************************************************************)
EXTENDS DayCount

HatAt(h, o) ==
    IF o = h.d THEN h.bump
    ELSE IF o < h.d
    THEN IF h.prior = 0 THEN h.bump
         ELSE IF o <= h.prior THEN "0"
         ELSE DMul(h.bump, DDiv(YearFrac(h.dcc, h.prior, o), YearFrac(h.dcc, h.prior, h.d)))
    ELSE IF h.next = 0 THEN h.bump
         ELSE IF o >= h.next THEN "0"
         ELSE DMul(h.bump, DDiv(YearFrac(h.dcc, o, h.next), YearFrac(h.dcc, h.d, h.next)))

HatsAt(hs, o) == DSum([i \in 1..Len(hs) |-> HatAt(hs[i], o)])

\* key rates of one day count and bump, with neighbours as in a collection
Linked(dates, dcc, bump) ==
    [i \in 1..Len(dates) |->
        [d |-> dates[i], dcc |-> dcc, bump |-> bump,
         prior |-> IF i = 1 THEN 0 ELSE dates[i - 1],
         next |-> IF i = Len(dates) THEN 0 ELSE dates[i + 1]]]
=============================================================================
