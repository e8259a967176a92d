SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Versions = {1, 2}
  Projects = {1, 2}
  RemoveFirst = TRUE
  HashFirst = FALSE
  MaxOps = 4
INVARIANT Implements
CHECK_DEADLOCK FALSE
