SPECIFICATION Spec
INVARIANTS Ordered NeighboursSet NoDuplicates Unity Hats Emit
CHECK_DEADLOCK FALSE
