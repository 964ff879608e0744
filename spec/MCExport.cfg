SPECIFICATION Spec
INVARIANTS Shown Numbering Emit
PROPERTIES Others Quiet
CHECK_DEADLOCK FALSE
