CONSTANTS MaxNS = 3 MaxNB = 2 MaxNG = 2 MaxRuns = 3
SPECIFICATION Spec
INVARIANTS Legal Complete Ordered OneTorn Torn
CHECK_DEADLOCK FALSE
