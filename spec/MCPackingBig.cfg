SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxScales = 4 Vals = {1, 2, 3}
INVARIANTS RoundTrip Sizes
CHECK_DEADLOCK FALSE
