SPECIFICATION TSpec
INVARIANT Ordered
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
