SPECIFICATION Spec
INVARIANTS Sorted Stable OneEach Emit
PROPERTY KeysStay
CHECK_DEADLOCK FALSE
