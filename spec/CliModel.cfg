SPECIFICATION Spec
CONSTANTS MaxPaths = 2
INVARIANTS InOrder GoOn KeyedSame Single1 GlobUnused PrettySame Gen
CHECK_DEADLOCK FALSE
