SPECIFICATION TSpec
CONSTANT N = 4
INVARIANT AlwaysValid
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
