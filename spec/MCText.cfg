SPECIFICATION Spec
CONSTANTS
  MaxUnits = 3
  MaxLeaves = 2
  K = 2
INVARIANTS TypeOK PassageText PassageTree ReffsAgree Adjacent Back Emit
CHECK_DEADLOCK FALSE
