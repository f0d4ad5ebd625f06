SPECIFICATION Spec
CONSTANTS MaxLen = 3  Palette = "tpl"
INVARIANTS Unique Faithful Partition Gen
CHECK_DEADLOCK FALSE
