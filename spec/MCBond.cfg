SPECIFICATION Spec
INVARIANTS Regular Between AtEnds PaidLater Decreasing
PROPERTY Grows
CHECK_DEADLOCK FALSE
