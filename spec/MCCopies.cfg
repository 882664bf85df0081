SPECIFICATION Spec
CONSTANTS Ops = {0, 1, 2} Cells = 3 Steps = 6 Random = TRUE
INVARIANTS Explained SameHistorySameFuture
PROPERTY Frame
CHECK_DEADLOCK FALSE
