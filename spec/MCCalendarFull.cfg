SPECIFICATION CalSpec
CONSTANTS FirstYear = 1600
 FirstNum = 2305448
 FirstWd = 6
 LastYear = 2800
INVARIANTS NumberingRight YearLength
CHECK_DEADLOCK FALSE
