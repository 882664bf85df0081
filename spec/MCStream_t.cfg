SPECIFICATION Spec
INVARIANTS NewestReported EmptyReportsNothing OnePerPartition Visible Relation
PROPERTY NoOp
CONSTANTS W = 3 K = 2
CHECK_DEADLOCK FALSE
