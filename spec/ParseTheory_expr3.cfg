SPECIFICATION Spec
CONSTANTS MaxLen = 3  ModeC = "expr"
INVARIANTS Deterministic Lossless Stable SpansIn
CHECK_DEADLOCK FALSE
