SPECIFICATION Spec
INVARIANTS IsSchedule NoDrift
PROPERTIES Advances
CHECK_DEADLOCK FALSE
