SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"sd", "se", "ee", "ct", "cm", "pi"}
  FIELDS = {"span"}
  ERRS = {}
INVARIANT Inv
