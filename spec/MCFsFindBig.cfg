CONSTANTS Names <- FindNames Mode3 = {7, 0} Targets <- FindTargets Contents <- FindContents Sufs <- FindSufs Size = 3 Depth = 2
SPECIFICATION GrowSpec
INVARIANTS Trees FindOk LoadOk
CHECK_DEADLOCK FALSE
