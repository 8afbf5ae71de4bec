SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS Truthful LinesRight TreeRight
CHECK_DEADLOCK FALSE
