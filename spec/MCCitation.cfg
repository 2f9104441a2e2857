SPECIFICATION Spec
CONSTANTS MaxSteps = 3
INVARIANTS Recombine NoHoles Numbered Emit
CHECK_DEADLOCK FALSE
