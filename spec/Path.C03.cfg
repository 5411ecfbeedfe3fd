SPECIFICATION Spec
INVARIANT C03
CHECK_DEADLOCK FALSE
