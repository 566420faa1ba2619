SPECIFICATION Spec
CONSTANTS
  ZWEEK = 403200
  ZDAY = 57600
  AnyOrder = FALSE
  Ends <- Ends3
INVARIANTS Complete OnlyWanted NoneLost Laws
CHECK_DEADLOCK FALSE
