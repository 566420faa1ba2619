SPECIFICATION TSpec
CONSTANTS
  DAYMS = 86400000
  MSNS = 1000000
  ZWEEK = 403200
  ZDAY = 57600
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
