SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Refs = {"1", "1.2-2"}
  MaxEdits = 2
INVARIANTS RoundTrip ParsePrint Prefixes TruncParse Emit
CHECK_DEADLOCK FALSE
