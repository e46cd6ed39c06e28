SPECIFICATION Spec
CONSTANT G = 6
INVARIANTS Optimal Minimal Odd Shrinks Amount
CHECK_DEADLOCK FALSE
