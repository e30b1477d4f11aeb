SPECIFICATION Spec
INVARIANTS Composes Riccati Forwards Accumulates NoArbitrage Textbook Symmetric Positive
CHECK_DEADLOCK FALSE
