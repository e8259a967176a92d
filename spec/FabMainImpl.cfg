SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Dashes = TRUE
INVARIANT Same
CHECK_DEADLOCK FALSE
