SPECIFICATION Spec
INVARIANT AnswersArePure
CHECK_DEADLOCK FALSE
