SPECIFICATION Spec
CONSTANTS MaxRays = 4 MaxOps = 3
CONSTANT Sels <- SelsQ
INVARIANTS Together Counts AllProps Laws
PROPERTIES SourcesStay
CHECK_DEADLOCK FALSE
