CONSTANTS Names = {"a", "b"} Depth = 2 Kinds = {"file", "sock"} Contents = {1, 2} MaxEntries = 4 Slip = ""
SPECIFICATION Spec
INVARIANT Tree
PROPERTIES Harmless Made Deleted Renamed
CHECK_DEADLOCK FALSE
