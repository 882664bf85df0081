SPECIFICATION Spec
INVARIANTS Exact Found Shape Occupied Fits
CONSTANTS Q = 3 RB = 1 Edges = TRUE
CHECK_DEADLOCK FALSE
