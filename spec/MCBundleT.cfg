SPECIFICATION Spec
CONSTANTS MaxRays = 5 MaxOps = 4
CONSTANT Sels <- SelsQ
INVARIANTS Together Counts AllProps Laws
PROPERTIES SourcesStay
CHECK_DEADLOCK FALSE
