SPECIFICATION Spec
CONSTANTS MaxItems = 3 MaxOps = 3 MaxSkip = 1
INVARIANTS Parted Orderly Complete Fused Gen
CHECK_DEADLOCK FALSE
