SPECIFICATION Spec
CONSTANTS
  MaxDefs = 2
  GoTarget = TRUE
INVARIANTS NoFalseFailure NoFalseSuccess Right_ Bound Once Small
PROPERTY Ends
CHECK_DEADLOCK FALSE
