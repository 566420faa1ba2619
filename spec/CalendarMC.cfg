SPECIFICATION Spec
CONSTANTS
  Starts = {1,2,3,4,5,6,7,8,9,10,11}
  Span = 800
INVARIANTS Closed Inverse Anchors
CHECK_DEADLOCK FALSE
