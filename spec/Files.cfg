SPECIFICATION Spec
INVARIANTS SameShape Converted Emit
PROPERTIES Kept OneNew
CHECK_DEADLOCK FALSE
