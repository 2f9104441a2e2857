SPECIFICATION Spec
CONSTANTS
  MaxPages = 5
  MaxSize = 2
  MaxFaults = 2
INVARIANTS Whole Fresh EntryFirst NoGap
PROPERTY Answers
CHECK_DEADLOCK FALSE
