CONSTANTS Values = {0, 1, 3} N = 5
SPECIFICATION Spec
INVARIANTS Ordered Steady Mirrored Turned Excluding Readings Powers
CHECK_DEADLOCK FALSE
