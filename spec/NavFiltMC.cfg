SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 4
  MaxChain = 2
  Kinds = {"cross", "order", "cook", "test"}
  Test <- MTest
  Change <- MChange
  Slot <- MSlot
  Fits <- MFits
INVARIANTS Conserved Emptied InOrder Tested Voted AtOnce
CHECK_DEADLOCK FALSE
