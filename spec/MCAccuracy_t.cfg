SPECIFICATION Spec
INVARIANTS Laws
CONSTANTS Most = 7
CHECK_DEADLOCK FALSE
