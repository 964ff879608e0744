SPECIFICATION Spec
INVARIANTS Isolation Emit
CHECK_DEADLOCK FALSE
