SPECIFICATION Spec
CONSTANTS
  Ids <- MCIds
  Msgs <- MCMsgs
  MaxRecs = 2
INVARIANTS Readable Backward Cut Damage Sizes
CHECK_DEADLOCK FALSE
