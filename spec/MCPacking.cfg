SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxScales = 3 Vals = {1, 2}
INVARIANTS RoundTrip Sizes
CHECK_DEADLOCK FALSE
