SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"sd", "se", "ee", "ct", "cm", "pi"}
  FIELDS = {"name", "attrs"}
  ERRS = {}
INVARIANT Inv
