SPECIFICATION Spec
INVARIANTS Sound Formats RejectedRight Emit
PROPERTIES Decided
CHECK_DEADLOCK FALSE
