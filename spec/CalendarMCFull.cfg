SPECIFICATION Spec
CONSTANTS
  Starts = {1,2,3,8}
  Span = 365250
INVARIANTS Closed Inverse Anchors
CHECK_DEADLOCK FALSE
