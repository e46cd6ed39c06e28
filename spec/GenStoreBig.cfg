CONSTANTS Samplers = {1, 2} Files = {1, 2, 3} MaxLen = 4 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Existed Apart
PROPERTIES Kept Pure
CHECK_DEADLOCK FALSE
