SPECIFICATION Spec
CONSTANTS Kmax = 6 Cap = 16
INVARIANTS InRange EmptyIsZero FullBloomIsOne Independent
PROPERTY NeverFalls
CHECK_DEADLOCK FALSE
