SPECIFICATION Spec
CONSTANTS Units = TRUE MaxLen = 3
INVARIANTS DataAgree BracesMeanNothing BodiesAreSequences StructuresAreEither KeysOnce Gen
CHECK_DEADLOCK FALSE
