SPECIFICATION Spec
INVARIANT DBSound
PROPERTY Refines
PROPERTY DryInert
PROPERTY UpToDateAfter
PROPERTY Progress
VIEW View
CHECK_DEADLOCK FALSE
