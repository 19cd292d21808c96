INIT MCInit
NEXT MCNext
VIEW View
CHECK_DEADLOCK FALSE
