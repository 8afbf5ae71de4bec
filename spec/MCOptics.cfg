SPECIFICATION Spec
INVARIANTS MirrorLaw SnellLaw Reversible TotalIff ShareOK Conserved
CHECK_DEADLOCK FALSE
