SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Alphabet = {97, 49, 45, 95, 233, 769, 32, 36, 46, 10}
INVARIANTS Clean Close ReadAsName Gen
CHECK_DEADLOCK FALSE
