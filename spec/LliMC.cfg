SPECIFICATION Spec
INVARIANTS ReadIff RoundTrip Aliases Emit
CHECK_DEADLOCK FALSE
