------------------------------- MODULE PySlices -------------------------------
(* Which places x[i:j:step] of a sequence of n takes, counted from one.    *)
(* An end that is left out is given as NoEnd.                              *)
EXTENDS Integers, Sequences

NoEnd == 1000000000

LOCAL Lim(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
LOCAL From(n, x) == IF x < 0 THEN x + n ELSE x

SliceStart(n, i, step) ==
    IF step > 0 THEN IF i = NoEnd THEN 0 ELSE Lim(From(n, i), 0, n)
    ELSE IF i = NoEnd THEN n - 1 ELSE Lim(From(n, i), -1, n - 1)
SliceStop(n, j, step) ==
    IF step > 0 THEN IF j = NoEnd THEN n ELSE Lim(From(n, j), 0, n)
    ELSE IF j = NoEnd THEN -1 ELSE Lim(From(n, j), -1, n - 1)
SliceCount(n, i, j, step) ==
    LET a == SliceStart(n, i, step)
        b == SliceStop(n, j, step)
    IN IF step > 0 THEN IF a < b THEN (b - a + step - 1) \div step ELSE 0
       ELSE IF a > b THEN (a - b - step - 1) \div (-step) ELSE 0
\* in the order they are taken
SliceSeq(n, i, j, step) == [k \in 1..SliceCount(n, i, j, step) |-> SliceStart(n, i, step) + ((k - 1) * step) + 1]
SliceSet(n, i, j, step) == {SliceStart(n, i, step) + ((k - 1) * step) + 1 : k \in 1..SliceCount(n, i, j, step)}
===============================================================================
