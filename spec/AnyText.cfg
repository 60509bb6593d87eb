SPECIFICATION Spec
INVARIANTS Emit
PROPERTIES Answered
CHECK_DEADLOCK FALSE
