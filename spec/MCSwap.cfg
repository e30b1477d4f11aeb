SPECIFICATION Spec
INVARIANTS Covers Count Whole Fair AtLeast
CHECK_DEADLOCK FALSE
