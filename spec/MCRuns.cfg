SPECIFICATION Spec
INVARIANTS Refines Reads Counts Bytes
CONSTANTS N = 5
CHECK_DEADLOCK FALSE
