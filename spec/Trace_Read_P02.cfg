SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"se", "ee"}
  FIELDS = {"name"}
  ERRS = {"UnexpectedTagIndent"}
INVARIANT Inv
