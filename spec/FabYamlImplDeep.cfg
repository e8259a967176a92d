SPECIFICATION Spec
CONSTANTS
  MaxDefs = 5
  GoTarget = FALSE
INVARIANTS NoFalseFailure NoFalseSuccess Right_ Bound Once Small
PROPERTY Ends
CHECK_DEADLOCK FALSE
