SPECIFICATION Spec
INVARIANTS Tells
CHECK_DEADLOCK FALSE
