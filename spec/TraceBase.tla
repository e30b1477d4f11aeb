----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is a sequence of      *)
(* events recorded at the return of public calls of the real code.  Event  *)
(* "begin" starts a new history: the abstract state goes back to Init.     *)
(* A verdict is total: an event the specification does not allow is        *)
(* reported with the names of the clauses that fail, and the abstract      *)
(* state is then taken from the specification, so that later events of     *)
(* the history are judged as well.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Dec

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* names of the clauses of a record of booleans [name |-> holds] that fail
Failing(r) == {c \in DOMAIN r : ~r[c]}

RECURSIVE JoinSet(_)
JoinSet(S) == IF S = {} THEN ""
              ELSE LET x == CHOOSE y \in S : TRUE
                   IN x \o (IF S = {x} THEN "" ELSE "," \o JoinSet(S \ {x}))

Report(i, fails) == IF fails = {} THEN TRUE ELSE PrintT("VFAIL " \o ToString(i) \o " " \o JoinSet(fails))

\* the call returned a value (rather than raising, or returning something of another shape)
Ok(e) == e.out.ok
\* clauses for a call that has to return: r(v) is the record of clauses of the value
Returned(e) == e.out.ok
=============================================================================
