SPECIFICATION Spec
INVARIANTS GridIsHistory Increasing TimeAdds Cholesky PathsClosed DrawsBack Solved Grids Between Constants Lines Slopes Inverse
CHECK_DEADLOCK FALSE
