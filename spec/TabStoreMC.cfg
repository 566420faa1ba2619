SPECIFICATION Spec
CONSTANTS T = 7
 N = 3
INVARIANTS Ordered WinOK LineOK
CHECK_DEADLOCK FALSE
