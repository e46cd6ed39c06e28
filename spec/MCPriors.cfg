SPECIFICATION Spec
CONSTANT G = 1
INVARIANTS Minimiser Contracts
CHECK_DEADLOCK FALSE
