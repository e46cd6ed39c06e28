CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANT Recovers
PROPERTIES Kept OnceOnly
CHECK_DEADLOCK FALSE
