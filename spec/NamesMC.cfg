SPECIFICATION Spec
INVARIANTS SatBack SatApart ObsBack ObsApart
CHECK_DEADLOCK FALSE
