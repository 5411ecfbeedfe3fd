SPECIFICATION Spec
INVARIANT RSShortest
CHECK_DEADLOCK FALSE
