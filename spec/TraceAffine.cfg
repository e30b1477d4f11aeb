SPECIFICATION TraceSpec2
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
