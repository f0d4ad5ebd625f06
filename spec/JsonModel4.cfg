SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Found Keys LastWins NoKeyTwice
CHECK_DEADLOCK FALSE
