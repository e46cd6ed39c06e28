CONSTANT Big = FALSE
INIT Init
NEXT Next
INVARIANT Criterion
CHECK_DEADLOCK FALSE
