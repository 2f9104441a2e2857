SPECIFICATION Spec
CONSTANTS
  Urns = {"urn:cts:a:b.c.d", "urn:cts:a:b.c.d:1"}
  Invs = {"i", "j"}
  Levels = {"1", "2"}
  Refs0 = {"1", "1.2", "1.2-2.3"}
INVARIANTS Once Said Apart Emit
CHECK_DEADLOCK FALSE
