SPECIFICATION Spec
INVARIANTS SigIsMinimum VotesDecide Single ShingleOK PairsOK BagOK
CONSTANTS N = 3 W = 2 K = 5 Tokens = 7
CHECK_DEADLOCK FALSE
