SPECIFICATION Spec
INVARIANTS Closed Conserved Bounded Repaid AlmostRepaid NeverOver Dates
CHECK_DEADLOCK FALSE
