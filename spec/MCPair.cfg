SPECIFICATION Spec
INVARIANTS Related Books Emit
CHECK_DEADLOCK FALSE
