SPECIFICATION Spec
CONSTANT Slots = {1, 2}
CONSTANT MaxLen = 6
CONSTRAINT Bound
INVARIANT Consistent
INVARIANT Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
