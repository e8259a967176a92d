SPECIFICATION TraceSpec
CONSTANT Hashes <- HashSet
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
