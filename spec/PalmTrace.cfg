SPECIFICATION TraceSpec
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
