SPECIFICATION BSpec
INVARIANTS Accept SamePath Covariances
CHECK_DEADLOCK FALSE
