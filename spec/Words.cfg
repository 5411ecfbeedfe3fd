SPECIFICATION Spec
INVARIANTS TypeOK NeverReverses BoundaryCurvature ContinuousInWord StartInWord CanFinish PrintWord
CHECK_DEADLOCK FALSE
