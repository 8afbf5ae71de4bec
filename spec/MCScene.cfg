SPECIFICATION Spec
INVARIANTS OrderFree UnitDir EnergyOK Walled MediumIsPlace AtFocus LensFacts
CHECK_DEADLOCK FALSE
