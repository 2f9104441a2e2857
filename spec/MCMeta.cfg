SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS SetIsSole RemovedGone LangKept Partition Emit
PROPERTIES Frame
CHECK_DEADLOCK FALSE
