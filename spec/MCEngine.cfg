SPECIFICATION MCSpec
INVARIANTS ExactlyNearest Lineage CutOff Limit EndsForAReason OnlyOpen Independent Protocol
PROPERTIES SceneFixed TreeGrows Terminates
CHECK_DEADLOCK FALSE
