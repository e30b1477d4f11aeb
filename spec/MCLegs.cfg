SPECIFICATION Spec
INVARIANTS LastSet FixedSet Emit
CHECK_DEADLOCK FALSE
