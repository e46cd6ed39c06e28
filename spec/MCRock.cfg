SPECIFICATION Spec
CONSTANT MaxS = 14
INVARIANTS Affine UnitDrift OneStage Nodes
CHECK_DEADLOCK FALSE
