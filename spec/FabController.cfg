SPECIFICATION Spec
INVARIANT RunsOnce
INVARIANT SameOutcome
PROPERTY Refines
PROPERTY Finishes
CHECK_DEADLOCK FALSE
