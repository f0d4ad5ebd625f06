SPECIFICATION Spec
CONSTANTS Units = TRUE MaxLen = 4
INVARIANTS DataAgree BracesMeanNothing BodiesAreSequences StructuresAreEither KeysOnce Gen
CHECK_DEADLOCK FALSE
