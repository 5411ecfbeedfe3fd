SPECIFICATION Spec
INVARIANT C01
CHECK_DEADLOCK FALSE
