SPECIFICATION Spec
CONSTANTS MaxItems = 4 MaxOps = 4 MaxSkip = 2
INVARIANTS Parted Orderly Complete Fused
CHECK_DEADLOCK FALSE
