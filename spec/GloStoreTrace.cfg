SPECIFICATION TSpec
CONSTANT Half = 900
INVARIANT Ordered
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
