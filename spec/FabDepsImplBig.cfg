SPECIFICATION Spec
CONSTANTS
  Paths <- BigPaths
  Names = {"a", "b", "i/a", "i/b"}
  MaxImports = 1
  MaxIncs = 3
  Retry = FALSE
INVARIANTS Right NoDeeper
PROPERTY Ends
CHECK_DEADLOCK FALSE
