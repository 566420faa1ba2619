SPECIFICATION Spec
CONSTANTS
  Ids <- MCIdsLong
  Msgs <- MCMsgsLong
  MaxRecs = 2
INVARIANTS Readable Backward Cut Damage Sizes
CHECK_DEADLOCK FALSE
