SPECIFICATION Spec
INVARIANT C06
CHECK_DEADLOCK FALSE
