SPECIFICATION BSpec
INVARIANTS BStuck
CHECK_DEADLOCK FALSE
