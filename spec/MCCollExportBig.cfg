SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS Places RoundTrip Stable SummaryOK AboutIn
CHECK_DEADLOCK FALSE
