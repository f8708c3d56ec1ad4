CONSTANTS Names <- TreeNames Mode3 = {7, 5, 0} Targets <- TreeTargets Contents <- TreeContents Sufs = {} Size = 2 Depth = 2
SPECIFICATION Spec
INVARIANTS Trees MkdirOk CleanOk DeleteOk FlatOk UnlinkOk AbsOk
CHECK_DEADLOCK FALSE
