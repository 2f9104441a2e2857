SPECIFICATION Spec
CONSTANTS
  Shapes0 <- S2
  K = 4
INVARIANTS Remembered Somewhere Truthful Back
CHECK_DEADLOCK FALSE
