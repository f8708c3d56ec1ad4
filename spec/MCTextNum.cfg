CONSTANTS Alpha = {48, 49, 57, 45, 46, 101, 32} N = 5
SPECIFICATION Spec
INVARIANTS IntWider IntIsDbl NoBlankEnd PlusSame PointShift
CHECK_DEADLOCK FALSE
