SPECIFICATION Spec
CONSTANTS MaxOps = 6 MaxNodes = 4
INVARIANTS WorldIsComposition Forest
PROPERTIES MovesStayLocal
CHECK_DEADLOCK FALSE
