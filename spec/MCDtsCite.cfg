SPECIFICATION Spec
CONSTANTS MaxNodes = 4
 Names = {"a", ""}
INVARIANTS Partition NoBeyond Numbering RoundTrip Nested Emit
CHECK_DEADLOCK FALSE
