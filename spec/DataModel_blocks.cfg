SPECIFICATION Spec
CONSTANTS MaxSize = 3
 Full = FALSE
 Blocks = TRUE
INVARIANTS ExprBack ValueBack DocBack ExprShows DocShows Gen
CHECK_DEADLOCK FALSE
