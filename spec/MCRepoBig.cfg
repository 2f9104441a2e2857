SPECIFICATION Spec
CONSTANTS
  Groups <- G2
  Works <- W2
  TextIds = {"x"}
  Files = {"ok", "none", "broken"}
INVARIANTS Result OneOfEach Emit
CHECK_DEADLOCK FALSE
