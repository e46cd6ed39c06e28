CONSTANTS Vals <- BigVals Pix = {1, 2, 3} MaxN = 5 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Covers Symmetric Honoured Marked
CHECK_DEADLOCK FALSE
