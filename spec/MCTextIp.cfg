CONSTANTS Alpha = {49, 53, 46} N = 10
SPECIFICATION Spec
INVARIANTS IpDots IpExtra
CHECK_DEADLOCK FALSE
