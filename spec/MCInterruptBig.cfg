CONSTANTS MaxNS = 4 MaxNB = 3 MaxNG = 3 MaxRuns = 4
SPECIFICATION Spec
INVARIANTS Legal Complete Ordered OneTorn Torn
CHECK_DEADLOCK FALSE
