SPECIFICATION Spec
INVARIANT Owned
INVARIANT NothingLeft
CHECK_DEADLOCK FALSE
