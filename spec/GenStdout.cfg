CONSTANTS MaxLen = 6 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Silent
PROPERTY Leaves
CHECK_DEADLOCK FALSE
