SPECIFICATION Spec
INVARIANTS I1 I2 I3 I4 I5
PROPERTIES AtMostOne Monotone
CONSTANTS MaxStages = 3 MaxB0 = 4 Replay = TRUE
CHECK_DEADLOCK FALSE
