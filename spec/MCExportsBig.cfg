SPECIFICATION Spec
CONSTANTS
  Fmts = {"a", "b"}
  Sizes = {"c1", "c2", "y", "c3"}
INVARIANTS CapsAreOwn Answered ByDefault Own1 Silent Emit
CHECK_DEADLOCK FALSE
