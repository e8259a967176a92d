SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
