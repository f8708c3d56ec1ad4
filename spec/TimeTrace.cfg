SPECIFICATION Spec
CONSTANTS FirstYear = 1600
 FirstNum = 2305448
 FirstWd = 6
 LastYear = 2800
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
