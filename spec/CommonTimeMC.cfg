SPECIFICATION Spec
CONSTANTS
  DAYMS = 2
  MSNS = 2
  MAXDAY = 1
  Regs = {1, 2, 3}
  Deltas <- DeltaSet
  Sys = {"GPS"}
INVARIANTS Normal Trichotomy Transitive DiffLaws Inverse
CHECK_DEADLOCK FALSE
