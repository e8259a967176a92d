SPECIFICATION Spec
CONSTANTS
  Depth = 3
  CleanFirst = TRUE
  DeclDepth = 3
  Segs = {"a", "b"}
INVARIANTS Right Encloses
PROPERTY Ends
CHECK_DEADLOCK FALSE
