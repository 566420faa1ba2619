SPECIFICATION Spec
CONSTANTS
  T = 3
  M = 2
  Ops = 4
INVARIANTS InForceIsLast Known OnePerTime NearOK Exact RecentOK Table
CHECK_DEADLOCK FALSE
