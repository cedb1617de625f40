SPECIFICATION Spec
INVARIANT NonInterference
CHECK_DEADLOCK FALSE
