SPECIFICATION FairSpec
INVARIANTS Design Control1213 Emit
PROPERTIES FailedCallRestores
CHECK_DEADLOCK FALSE
