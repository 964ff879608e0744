SPECIFICATION Spec
INVARIANTS Holds Laws Joins Emit
CHECK_DEADLOCK FALSE
