CONSTANTS MaxLen = 7 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Silent
PROPERTY Leaves
CHECK_DEADLOCK FALSE
