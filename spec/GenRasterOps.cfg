SPECIFICATION Spec
CONSTANTS MaxSteps = 9
 Emit = TRUE
CHECK_DEADLOCK FALSE
