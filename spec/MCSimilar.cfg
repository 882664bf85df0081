SPECIFICATION Spec
INVARIANTS SigIsMinimum VotesDecide Single ShingleOK PairsOK BagOK
CONSTANTS N = 2 W = 2 K = 3 Tokens = 4
CHECK_DEADLOCK FALSE
