SPECIFICATION Spec
CONSTANTS Units = FALSE MaxLen = 4
INVARIANTS DataAgree BracesMeanNothing BodiesAreSequences StructuresAreEither Gen
CHECK_DEADLOCK FALSE
