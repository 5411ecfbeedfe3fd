SPECIFICATION Spec
INVARIANTS Stuck
CHECK_DEADLOCK FALSE
