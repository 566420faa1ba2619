SPECIFICATION TSpec
CONSTANTS
  DAYMS = 86400000
  MSNS = 1000000
  MAXDAY = 3442448
  Regs = {1, 2, 3, 4}
INVARIANTS Normal
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
