SPECIFICATION Spec
CONSTANTS MaxLen = 3  Palette = "expr"
INVARIANTS Unique Faithful Partition Gen
CHECK_DEADLOCK FALSE
