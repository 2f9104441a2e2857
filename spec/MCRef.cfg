SPECIFICATION Spec
CONSTANTS
  Vals = {"1", "a"}
  Words = {"w[2]"}
  MaxDepth = 3
INVARIANTS RoundTrip HighestIsShallow Terminates Emit
PROPERTIES ParentUp ParentPrefix
CHECK_DEADLOCK FALSE
