SPECIFICATION Spec
CONSTANTS Units = FALSE MaxLen = 5
INVARIANTS DataAgree BracesMeanNothing BodiesAreSequences StructuresAreEither Gen
CHECK_DEADLOCK FALSE
