SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS SetIsSole RemovedGone LangKept Partition Emit
PROPERTIES Frame
CHECK_DEADLOCK FALSE
