CONSTANT Big = TRUE
INIT Init
NEXT Next
INVARIANT Criterion
CHECK_DEADLOCK FALSE
