SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"ct"}
  FIELDS = {"data"}
  ERRS = {}
INVARIANT Inv
