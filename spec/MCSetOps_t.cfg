SPECIFICATION Spec
INVARIANT TypeOK
CONSTANTS N = 7 Shapes = 24
CHECK_DEADLOCK FALSE
