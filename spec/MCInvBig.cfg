SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANTS RoundTrip Stable Emit
CHECK_DEADLOCK FALSE
