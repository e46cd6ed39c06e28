CONSTANT MaxL = 40
INIT Init
NEXT Next
INVARIANTS Grow Top Tile Covered HarmTile
CHECK_DEADLOCK FALSE
