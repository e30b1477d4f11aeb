SPECIFICATION Spec
INVARIANTS Agree Counted RoundTrip
CHECK_DEADLOCK FALSE
