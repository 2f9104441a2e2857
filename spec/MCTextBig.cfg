SPECIFICATION Spec
CONSTANTS
  MaxUnits = 3
  MaxLeaves = 3
  K = 3
INVARIANTS TypeOK PassageText PassageTree ReffsAgree Adjacent Back Emit
CHECK_DEADLOCK FALSE
