CONSTANTS Handles = {1} Values = {0, 1, 2} Width = 7 Ids = {1}
SPECIFICATION ListSpec
INVARIANT Removing
CHECK_DEADLOCK FALSE
