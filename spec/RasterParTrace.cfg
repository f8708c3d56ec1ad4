SPECIFICATION SpecPar
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
