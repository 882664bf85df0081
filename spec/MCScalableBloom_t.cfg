SPECIFICATION Spec
INVARIANTS I1 I2 I3 I4 I5
PROPERTIES AtMostOne Monotone
CONSTANTS MaxStages = 4 MaxB0 = 8 Replay = FALSE
CHECK_DEADLOCK FALSE
