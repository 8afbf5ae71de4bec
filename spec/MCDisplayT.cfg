SPECIFICATION Spec
CONSTANTS MaxOps = 6
INVARIANTS Truthful LinesRight TreeRight
CHECK_DEADLOCK FALSE
