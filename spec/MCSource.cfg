SPECIFICATION Spec
INVARIANTS Tells Correlation Gridded
CHECK_DEADLOCK FALSE
