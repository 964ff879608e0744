SPECIFICATION Spec
INVARIANTS Bounded Ended Telescopes Bounds Emit
PROPERTIES ResetRestores
CHECK_DEADLOCK FALSE
