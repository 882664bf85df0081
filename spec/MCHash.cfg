SPECIFICATION Spec
INVARIANTS ClosedForm Limbs Arith
CONSTANT N = 200
CHECK_DEADLOCK FALSE
