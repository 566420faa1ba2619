SPECIFICATION TSpec
CONSTANTS
  DAYMS = 86400000
  MSNS = 1000000
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
