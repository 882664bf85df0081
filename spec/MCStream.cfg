SPECIFICATION Spec
INVARIANTS NewestReported EmptyReportsNothing OnePerPartition Visible Relation
PROPERTY NoOp
CONSTANTS W = 2 K = 2
CHECK_DEADLOCK FALSE
