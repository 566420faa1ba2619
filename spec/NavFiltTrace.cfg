SPECIFICATION TSpec
CONSTANTS
  Test <- TTest
  Change <- TChange
  Slot <- TSlot
  Fits <- TFits
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
