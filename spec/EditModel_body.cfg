SPECIFICATION Spec
CONSTANTS MaxLen = 2  Palette = "body"
INVARIANTS Unique Faithful Partition Gen
CHECK_DEADLOCK FALSE
