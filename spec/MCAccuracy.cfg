SPECIFICATION Spec
INVARIANTS Laws
CONSTANTS Most = 5
CHECK_DEADLOCK FALSE
