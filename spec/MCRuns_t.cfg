SPECIFICATION Spec
INVARIANTS Refines Reads Counts Bytes
CONSTANTS N = 7
CHECK_DEADLOCK FALSE
