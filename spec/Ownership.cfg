SPECIFICATION Spec
CONSTANTS Objs = {o1, o2}
 Blocks = {b1, b2, b3, b4}
 Handles = {h1}
INVARIANTS OneOwner NoneLost InUse NothingLeft
CHECK_DEADLOCK FALSE
