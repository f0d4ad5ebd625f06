SPECIFICATION Spec
CONSTANTS MaxSize = 4
 Full = FALSE
 Blocks = TRUE
INVARIANTS ExprBack ValueBack DocBack ExprShows DocShows
CHECK_DEADLOCK FALSE
