SPECIFICATION Spec
CONSTANTS W = 20
 Weeks = 4
INVARIANTS Same FileWeek
CHECK_DEADLOCK FALSE
