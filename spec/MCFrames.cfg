SPECIFICATION Spec
CONSTANTS MaxOps = 5 MaxNodes = 4
INVARIANTS WorldIsComposition Forest
PROPERTIES MovesStayLocal
CHECK_DEADLOCK FALSE
