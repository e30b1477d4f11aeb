SPECIFICATION Spec
INVARIANTS ThroughKnots FlatLeft Bounded Reproduces DefinedWhere
PROPERTY NoSteps
CHECK_DEADLOCK FALSE
