SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS RoundTrip Stable Emit
CHECK_DEADLOCK FALSE
