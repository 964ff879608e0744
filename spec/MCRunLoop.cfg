SPECIFICATION Spec
INVARIANTS TypeOK Clock Multiples FailureStops Complete Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
