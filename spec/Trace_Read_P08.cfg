SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"cm"}
  FIELDS = {"lines"}
  ERRS = {}
INVARIANT Inv
