CONSTANTS Iters = 3 Workers = 2 Locs = 2 Len_ = 2
SPECIFICATION Spec
INVARIANT SameAsAlone
CHECK_DEADLOCK FALSE
