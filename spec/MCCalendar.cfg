SPECIFICATION Spec
INVARIANT Agree
INVARIANT Calm
CHECK_DEADLOCK FALSE
