SPECIFICATION Spec
CONSTANTS
  Paths <- SmallPaths
  Names = {"a", "b", "i/a"}
  MaxImports = 2
  MaxIncs = 2
  Retry = FALSE
INVARIANTS Right NoDeeper
PROPERTY Ends
CHECK_DEADLOCK FALSE
