SPECIFICATION Spec
INVARIANTS GridIsFunctionOfNet NeverUnder ExactAlone ZeroWhenNothing BiasBelowMin MeanBetween RoundOK WordsAgree
CONSTANTS N = 3 Rows = 2 Width = 3 Most = 2
CHECK_DEADLOCK FALSE
