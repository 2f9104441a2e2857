SPECIFICATION Spec
CONSTANTS
  Shapes0 <- S1
  K = 3
INVARIANTS Remembered Somewhere Truthful Back Emit
CHECK_DEADLOCK FALSE
