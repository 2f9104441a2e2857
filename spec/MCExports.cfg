SPECIFICATION Spec
CONSTANTS
  Fmts = {"a", "b"}
  Sizes = {"c1", "c2", "y"}
INVARIANTS CapsAreOwn Answered ByDefault Own1 Silent Emit
CHECK_DEADLOCK FALSE
