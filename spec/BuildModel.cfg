SPECIFICATION Spec
CONSTANTS MaxSteps = 3
INVARIANTS Independent LastCounts Readable ReadableBody Gen
CHECK_DEADLOCK FALSE
