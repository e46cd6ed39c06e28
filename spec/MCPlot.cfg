CONSTANTS Vals <- SmallVals Pix = {1, 2} MaxN = 4 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Covers Symmetric Honoured Marked
CHECK_DEADLOCK FALSE
