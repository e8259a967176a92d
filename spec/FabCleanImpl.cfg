SPECIFICATION Spec
INVARIANT Allowed Tree
VIEW View
CHECK_DEADLOCK FALSE
