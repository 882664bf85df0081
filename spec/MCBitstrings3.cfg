SPECIFICATION Spec
INVARIANTS Refines Counted NoStrayBits Room
CONSTANTS N = 3 W = 3 B = 4
CHECK_DEADLOCK FALSE
