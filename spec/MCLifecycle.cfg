SPECIFICATION Spec
INVARIANTS PathIsLast NothingStale Emit
CHECK_DEADLOCK FALSE
