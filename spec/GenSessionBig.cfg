CONSTANTS Objects = {1, 2} Draws = {1, 2} Views = {1, 2} MaxLen = 4 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Memoryless Local Unobserved
PROPERTY Isolated
CHECK_DEADLOCK FALSE
