SPECIFICATION Spec
CONSTANTS
  MaxPages = 3
  MaxSize = 2
  MaxFaults = 2
INVARIANTS Whole Fresh EntryFirst NoGap Emit
PROPERTY Answers
CHECK_DEADLOCK FALSE
