SPECIFICATION Spec
CONSTANTS N = 3
 MaxOps = 3
 MaxFaults = 1
INVARIANTS Known1 Answers Mirror Acyclic Once Emit
CHECK_DEADLOCK FALSE
