SPECIFICATION Spec
INVARIANTS I1 I2 I3 I4 Repeat Commute
CONSTANTS MaxLen = 3 MaxK = 2 MaxW = 2
CHECK_DEADLOCK FALSE
