SPECIFICATION TSpec
CONSTANTS
  ZWEEK = 403200
  ZDAY = 57600
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
