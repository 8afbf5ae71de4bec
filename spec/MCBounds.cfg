SPECIFICATION Spec
INVARIANTS Together Plain Holds Tight
CHECK_DEADLOCK FALSE
