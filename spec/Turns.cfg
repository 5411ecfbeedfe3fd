SPECIFICATION Spec
INVARIANTS GoalReached DeclaredLength CurvatureContinuous EndCurvature Limits Rotation Directed ShortArc Shape
CHECK_DEADLOCK FALSE
