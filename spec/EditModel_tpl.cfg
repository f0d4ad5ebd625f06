SPECIFICATION Spec
CONSTANTS MaxLen = 2  Palette = "tpl"
INVARIANTS Unique Faithful Partition Gen
CHECK_DEADLOCK FALSE
