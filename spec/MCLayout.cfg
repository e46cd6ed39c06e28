CONSTANT MaxL = 20
INIT Init
NEXT Next
INVARIANTS Grow Top Tile Covered HarmTile
CHECK_DEADLOCK FALSE
