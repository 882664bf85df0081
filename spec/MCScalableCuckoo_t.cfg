SPECIFICATION Spec
INVARIANTS Refines Newest OneSpill Reported Removed Growth Once
CONSTANTS Entries = 1 First = 2 Raw = 4 NItems = 5 MaxStages = 3
CHECK_DEADLOCK FALSE
