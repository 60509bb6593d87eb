SPECIFICATION Spec
INVARIANTS Pure Sound Emit
CHECK_DEADLOCK FALSE
