SPECIFICATION Spec
CONSTANT Rich = 2
INVARIANTS Includes Agree NoPtr Wrapper Deref
CHECK_DEADLOCK FALSE
