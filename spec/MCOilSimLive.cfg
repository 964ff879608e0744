SPECIFICATION FairSpec
INVARIANTS Design Control1213 Emit
PROPERTIES FailedCallRestores Ends
CHECK_DEADLOCK FALSE
