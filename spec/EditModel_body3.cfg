SPECIFICATION Spec
CONSTANTS MaxLen = 3  Palette = "body"
INVARIANTS Unique Faithful Partition Gen
CHECK_DEADLOCK FALSE
