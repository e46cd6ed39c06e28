SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxX = 4
INVARIANTS Pell DerivativeRule Parity
CHECK_DEADLOCK FALSE
