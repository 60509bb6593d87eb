SPECIFICATION Spec
INVARIANTS Local Emit
CHECK_DEADLOCK FALSE
