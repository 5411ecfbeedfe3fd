SPECIFICATION Spec
INVARIANT C20
CHECK_DEADLOCK FALSE
