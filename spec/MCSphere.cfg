CONSTANT MaxL = 12
INIT Init
NEXT Next
INVARIANTS Quadrature Tiling LastPole Positive
CHECK_DEADLOCK FALSE
