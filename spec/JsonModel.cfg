SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Found Keys LastWins NoKeyTwice Gen
CHECK_DEADLOCK FALSE
