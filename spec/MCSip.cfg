SPECIFICATION Spec
INVARIANTS Reference Words Rotations
CHECK_DEADLOCK FALSE
