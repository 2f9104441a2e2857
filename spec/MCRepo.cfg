SPECIFICATION Spec
CONSTANTS
  Groups <- G1
  Works <- W1
  TextIds = {"x"}
  Files = {"ok", "none"}
INVARIANTS Result OneOfEach Emit
CHECK_DEADLOCK FALSE
