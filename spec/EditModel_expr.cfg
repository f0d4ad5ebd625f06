SPECIFICATION Spec
CONSTANTS MaxLen = 2  Palette = "expr"
INVARIANTS Unique Faithful Partition Gen
CHECK_DEADLOCK FALSE
