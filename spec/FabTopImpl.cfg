SPECIFICATION Spec
CONSTANTS
  Depth = 2
  CleanFirst = TRUE
  DeclDepth = 2
  Segs = {"a", "b", "..", ".", ""}
INVARIANTS Right Encloses
PROPERTY Ends
CHECK_DEADLOCK FALSE
