SPECIFICATION Spec
INVARIANTS Refines Counted Inside BytesRound
CONSTANTS N = 9 B = 8
CHECK_DEADLOCK FALSE
