SPECIFICATION Spec
INVARIANTS Emit Complete
CHECK_DEADLOCK FALSE
