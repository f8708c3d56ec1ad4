CONSTANTS Handles = {1, 2, 3} Values = {0, 1, 2} Width = 1 Ids = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Owned Alone Mem
PROPERTY Steps
CHECK_DEADLOCK FALSE
