SPECIFICATION Spec
INVARIANT C02
CHECK_DEADLOCK FALSE
