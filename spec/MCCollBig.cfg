SPECIFICATION Spec
CONSTANTS
  Ids = {"a", "b"}
  K = 6
  MaxObj = 4
INVARIANTS OnePerId ChildHasParent ParentHasId DescAncestors LookupSound DeletedGone Emit
CHECK_DEADLOCK FALSE
