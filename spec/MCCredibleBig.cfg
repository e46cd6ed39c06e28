CONSTANTS MaxN = 8 Vals = {0, 1, 3, 4} Den = 20
INIT Init
NEXT Next
INVARIANTS Coverage MaxInside Tight OrderFree RangeOK
CHECK_DEADLOCK FALSE
