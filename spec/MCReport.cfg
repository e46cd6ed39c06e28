CONSTANTS MaxN = 4 Vals = {0, 2, 5} LogPis = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS MapIsBest MapIgnoresBurn MeanOfTail MeanInside IntervalInside
CHECK_DEADLOCK FALSE
