SPECIFICATION SpecDb
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
