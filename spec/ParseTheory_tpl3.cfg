SPECIFICATION Spec
CONSTANTS MaxLen = 3  ModeC = "tpl"
INVARIANTS Deterministic Lossless Stable SpansIn
CHECK_DEADLOCK FALSE
