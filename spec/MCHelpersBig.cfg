CONSTANTS MaxN = 7 Vals = {0, 1, 2, 5}
INIT Init
NEXT Next
INVARIANTS AtLeast Largest OnlyTies Twice
CHECK_DEADLOCK FALSE
