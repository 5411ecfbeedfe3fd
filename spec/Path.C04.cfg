SPECIFICATION Spec
INVARIANT C04
CHECK_DEADLOCK FALSE
