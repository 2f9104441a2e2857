SPECIFICATION Spec
CONSTANTS
  K = 2
INVARIANTS OnePerId ChildHasParent Emit
PROPERTIES Union
CHECK_DEADLOCK FALSE
