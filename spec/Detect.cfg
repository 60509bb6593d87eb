SPECIFICATION Spec
INVARIANTS Stays Emit
CHECK_DEADLOCK FALSE
