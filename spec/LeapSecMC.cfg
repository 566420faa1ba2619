SPECIFICATION Spec
INVARIANTS StepsMatchClosedForm FinalValue GpsEra BdtEra PreContinuity TdbSmall
CHECK_DEADLOCK FALSE
