SPECIFICATION Spec
CONSTANTS MaxActs = 4
 Foreign = FALSE
INVARIANTS FlagOk NodesOk Between Outcomes Gen
CHECK_DEADLOCK FALSE
