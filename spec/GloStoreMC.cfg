SPECIFICATION Spec
CONSTANTS Half = 2  T = 7  N = 4
INVARIANTS IsMap Sound Complete Nearest
CHECK_DEADLOCK FALSE
