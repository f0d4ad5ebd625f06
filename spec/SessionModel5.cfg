SPECIFICATION Spec
CONSTANTS MaxActs = 5
 Foreign = FALSE
INVARIANTS FlagOk NodesOk Between Outcomes Gen
CHECK_DEADLOCK FALSE
