SPECIFICATION Spec
INVARIANTS NothingLost Valid HandFull Atomic Rivalry
CONSTANTS Buckets = 2 Entries = 1 MaxKicks = 2 MaxClasses = 4
CHECK_DEADLOCK FALSE
