SPECIFICATION Spec
CONSTANTS MaxSize = 3
 Full = FALSE
 Blocks = FALSE
INVARIANTS ExprBack ValueBack DocBack ExprShows DocShows Gen
CHECK_DEADLOCK FALSE
