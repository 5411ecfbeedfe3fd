SPECIFICATION Spec
INVARIANT Sound
INVARIANT SomeFits
INVARIANT Reported
CHECK_DEADLOCK FALSE
