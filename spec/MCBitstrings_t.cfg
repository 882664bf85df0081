SPECIFICATION Spec
INVARIANTS Refines Counted NoStrayBits Room
CONSTANTS N = 5 W = 2 B = 3
CHECK_DEADLOCK FALSE
