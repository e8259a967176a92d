SPECIFICATION GenSpec
INVARIANT Emit
INVARIANT NoStuck
CHECK_DEADLOCK FALSE
