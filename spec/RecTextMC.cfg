SPECIFICATION Spec
INVARIANT RoundTrip Idem Near Width IdemE Strings
CHECK_DEADLOCK FALSE
