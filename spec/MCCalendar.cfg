SPECIFICATION CalSpec
CONSTANTS FirstYear = 1899
 FirstNum = 2414656
 FirstWd = 0
 LastYear = 2101
INVARIANTS NumberingRight YearLength
CHECK_DEADLOCK FALSE
