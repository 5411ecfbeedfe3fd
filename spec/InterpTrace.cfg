SPECIFICATION Spec
INVARIANTS Explained AtStart
CHECK_DEADLOCK FALSE
