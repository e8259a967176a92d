SPECIFICATION Spec
CONSTANT Hashes = {1, 2}
INVARIANT Allowed
INVARIANT Sound
VIEW View
CHECK_DEADLOCK FALSE
