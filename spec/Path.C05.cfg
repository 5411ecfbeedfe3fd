SPECIFICATION Spec
INVARIANT C05
CHECK_DEADLOCK FALSE
