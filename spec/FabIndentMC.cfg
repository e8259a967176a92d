SPECIFICATION Spec
INVARIANT Function
VIEW View
CHECK_DEADLOCK FALSE
