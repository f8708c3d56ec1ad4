CONSTANTS Names <- NamesNames Mode3 = {7} Targets <- NamesTargets Contents <- NamesContents Sufs <- NamesSufs Size = 2 Depth = 2
SPECIFICATION GrowSpec
INVARIANTS Trees AbsOk PartsOk
CHECK_DEADLOCK FALSE
