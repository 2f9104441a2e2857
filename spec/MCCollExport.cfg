SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS Places RoundTrip Stable SummaryOK AboutIn Emit
CHECK_DEADLOCK FALSE
