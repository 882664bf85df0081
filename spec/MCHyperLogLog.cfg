SPECIFICATION Spec
INVARIANTS FunctionOfSet Bracket Monotone EmptyZero LinearZero
CONSTANTS N = 3 P = 1 MaxRank = 2 Replay = TRUE
CHECK_DEADLOCK FALSE
