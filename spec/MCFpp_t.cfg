SPECIFICATION Spec
CONSTANTS Kmax = 30 Cap = 64
INVARIANTS InRange EmptyIsZero FullBloomIsOne Independent
PROPERTY NeverFalls
CHECK_DEADLOCK FALSE
