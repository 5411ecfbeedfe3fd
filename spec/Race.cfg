SPECIFICATION Spec
INVARIANT NoRace
INVARIANT NoPlainWrite
CHECK_DEADLOCK FALSE
