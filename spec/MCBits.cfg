SPECIFICATION Spec
INVARIANTS Refines Counted Inside BytesRound
CONSTANTS N = 7 B = 3
CHECK_DEADLOCK FALSE
