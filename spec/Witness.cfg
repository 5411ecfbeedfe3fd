SPECIFICATION Spec
INVARIANT NotBeaten
CHECK_DEADLOCK FALSE
INVARIANT Reported
