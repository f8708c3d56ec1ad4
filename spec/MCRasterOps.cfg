SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 Emit = FALSE
VIEW seen
CHECK_DEADLOCK FALSE
INVARIANTS Shape Indexed SetFrame SameView Replaced Reclassed Counted Partition Built Combining Pieces
