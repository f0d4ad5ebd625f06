SPECIFICATION Spec
CONSTANTS MaxSteps = 5
INVARIANTS Independent LastCounts Readable ReadableBody
CHECK_DEADLOCK FALSE
