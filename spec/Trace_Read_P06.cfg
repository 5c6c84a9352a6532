SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"se"}
  FIELDS = {"attrs"}
  ERRS = {"UnexpectedAttribute"}
INVARIANT Inv
