SPECIFICATION Spec
CONSTANTS
  MaxRules = 2
INVARIANTS Once Wins Emit
CHECK_DEADLOCK FALSE
