SPECIFICATION Spec
INVARIANTS FunctionOfSet Bracket Monotone EmptyZero LinearZero
CONSTANTS N = 3 P = 2 MaxRank = 4 Replay = FALSE
CHECK_DEADLOCK FALSE
