SPECIFICATION Spec
CONSTANTS MaxSize = 4
 Full = TRUE
 Blocks = FALSE
INVARIANTS ExprBack ValueBack DocBack ExprShows DocShows
CHECK_DEADLOCK FALSE
