SPECIFICATION Spec
INVARIANT Finished
CHECK_DEADLOCK FALSE
