INIT DInit
NEXT DNext
CHECK_DEADLOCK FALSE
