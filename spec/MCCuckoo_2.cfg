SPECIFICATION Spec
INVARIANTS NothingLost Valid HandFull Atomic Rivalry
CONSTANTS Buckets = 2 Entries = 2 MaxKicks = 2 MaxClasses = 6
CHECK_DEADLOCK FALSE
