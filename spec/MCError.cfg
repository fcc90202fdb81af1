SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Kept ChainEnds Converted Named0
CHECK_DEADLOCK FALSE
