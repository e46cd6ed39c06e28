CONSTANT MaxL = 40
INIT Init
NEXT Next
INVARIANTS Quadrature Tiling LastPole Positive
CHECK_DEADLOCK FALSE
