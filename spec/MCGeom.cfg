SPECIFICATION Spec
INVARIANTS RootsOnSurface SignsAgree GradOK FrameFree Unique SubSet
CHECK_DEADLOCK FALSE
