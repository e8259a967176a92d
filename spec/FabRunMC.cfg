SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT SeqRule
INVARIANT DepsRule
INVARIANT FinNothingRunning
INVARIANT NoDeadlock
PROPERTY Forward
PROPERTY Final
PROPERTY Terminates
CHECK_DEADLOCK FALSE
