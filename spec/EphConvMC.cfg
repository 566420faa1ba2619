SPECIFICATION Spec
INVARIANTS NearOK RoundTrip Settles NotEmpty EvenInside Shift
CHECK_DEADLOCK FALSE
