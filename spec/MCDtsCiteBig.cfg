SPECIFICATION Spec
CONSTANTS MaxNodes = 6
 Names = {"a", ""}
INVARIANTS Partition NoBeyond Numbering RoundTrip Nested
CHECK_DEADLOCK FALSE
