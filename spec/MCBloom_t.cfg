SPECIFICATION Spec
INVARIANTS I1 I2 I3 I4 Repeat Commute
CONSTANTS MaxLen = 5 MaxK = 3 MaxW = 4
CHECK_DEADLOCK FALSE
