SPECIFICATION Spec
CONSTANTS
  K = 1
INVARIANTS OnePerId ChildHasParent Emit
PROPERTIES Union
CHECK_DEADLOCK FALSE
