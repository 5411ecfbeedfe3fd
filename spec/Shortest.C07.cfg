SPECIFICATION Spec
INVARIANT DubinsShortest
CHECK_DEADLOCK FALSE
