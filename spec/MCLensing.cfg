CONSTANT MaxL = 60
INIT Init
NEXT Next
INVARIANTS Square Sign Growing Number
CHECK_DEADLOCK FALSE
