SPECIFICATION Spec
INVARIANT TypeOK
CONSTANTS N = 5 Shapes = 12
CHECK_DEADLOCK FALSE
