SPECIFICATION Spec
INVARIANTS Accept Gap
CHECK_DEADLOCK FALSE
