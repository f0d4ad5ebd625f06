SPECIFICATION Spec
CONSTANTS MaxLen = 3  ModeC = "body"
INVARIANTS Deterministic Lossless Stable SpansIn
CHECK_DEADLOCK FALSE
