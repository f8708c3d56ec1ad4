CONSTANTS Handles = {1, 2} Values = {0, 1} Width = 3 Ids = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Owned Alone Mem
PROPERTY Steps
CHECK_DEADLOCK FALSE
