SPECIFICATION Spec
CONSTANTS
  ZWEEK = 7
  ZDAY = 1
  MaxW = 3
  R = 4
INVARIANTS ZLine ZDiffLaw WeekViews CandUnique
CHECK_DEADLOCK FALSE
