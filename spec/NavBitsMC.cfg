SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Tight ReadBack
CHECK_DEADLOCK FALSE
