SPECIFICATION Spec
CONSTANT G = 3
INVARIANTS Optimal Minimal Odd Shrinks Amount
CHECK_DEADLOCK FALSE
