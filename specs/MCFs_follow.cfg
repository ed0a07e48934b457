CONSTANTS Names = {"a", "b"} Depth = 2 Kinds = {"file", "sock"} Contents = {1} MaxEntries = 3 Slip = "follow"
SPECIFICATION Spec
INVARIANT Tree
PROPERTIES Harmless Made Deleted Renamed
CHECK_DEADLOCK FALSE
