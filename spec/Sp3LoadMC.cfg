SPECIFICATION Spec
CONSTANTS N = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
