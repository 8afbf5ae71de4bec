SPECIFICATION Spec
INVARIANTS Rigid Fixed Sums Hand Pointing Names
CHECK_DEADLOCK FALSE
