SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"se", "ee"}
  FIELDS = {"uri"}
  ERRS = {"UnmappedPrefix"}
INVARIANT Inv
