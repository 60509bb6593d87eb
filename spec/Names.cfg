SPECIFICATION Spec
INVARIANTS Belongs Emit
PROPERTY CaseBlind
CHECK_DEADLOCK FALSE
