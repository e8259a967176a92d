SPECIFICATION Spec
CONSTANT Hashes = {1, 2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
