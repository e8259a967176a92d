SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Dashes = TRUE
INVARIANT Same
CHECK_DEADLOCK FALSE
