SPECIFICATION SpecApp
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
