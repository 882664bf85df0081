SPECIFICATION Spec
INVARIANTS NothingLost Valid HandFull Atomic Rivalry
CONSTANTS Buckets = 4 Entries = 1 MaxKicks = 3 MaxClasses = 5
CHECK_DEADLOCK FALSE
