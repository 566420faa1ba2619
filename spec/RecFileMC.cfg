SPECIFICATION Spec
INVARIANT Prefix NeverBad Count
PROPERTY Stuck
CHECK_DEADLOCK FALSE
