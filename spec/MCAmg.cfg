SPECIFICATION Spec
INVARIANTS Answers Falls Interpolates Emit
CHECK_DEADLOCK FALSE
