SPECIFICATION Spec
CONSTANTS N = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
