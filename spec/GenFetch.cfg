CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANT Recovers
PROPERTIES Kept OnceOnly
CHECK_DEADLOCK FALSE
