SPECIFICATION Spec
CONSTANTS
  ZWEEK = 403200
  ZDAY = 57600
INVARIANTS Laws
CHECK_DEADLOCK FALSE
