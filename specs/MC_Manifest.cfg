SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Tiles DistinctPaths
