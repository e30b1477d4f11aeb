SPECIFICATION Spec
INVARIANTS NotNegative Close Noon
PROPERTIES Monotone EveryDayOnce
CHECK_DEADLOCK FALSE
