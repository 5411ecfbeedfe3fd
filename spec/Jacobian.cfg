SPECIFICATION Spec
INVARIANTS PoseDerivative ControlDerivative ReportKnown
CHECK_DEADLOCK FALSE
