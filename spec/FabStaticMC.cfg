SPECIFICATION Spec
CONSTANT Rich = 1
INVARIANTS Includes Agree NoPtr Wrapper Deref
CHECK_DEADLOCK FALSE
