SPECIFICATION Spec
CONSTANTS
  ZWEEK = 403200
  ZDAY = 57600
  AnyOrder = TRUE
  Ends <- Times
INVARIANTS Complete OnlyWanted NoneLost Laws
CHECK_DEADLOCK FALSE
