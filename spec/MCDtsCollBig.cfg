SPECIFICATION Spec
CONSTANTS N = 4
 MaxOps = 4
 MaxFaults = 1
INVARIANTS Known1 Answers Mirror Acyclic Once
CHECK_DEADLOCK FALSE
