SPECIFICATION Spec
INVARIANTS Stay Down Reaches UnitSun Layout
CHECK_DEADLOCK FALSE
