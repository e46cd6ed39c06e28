CONSTANTS MaxN = 6 Vals = {0, 1, 3} Den = 8
INIT Init
NEXT Next
INVARIANTS Coverage MaxInside Tight OrderFree RangeOK
CHECK_DEADLOCK FALSE
