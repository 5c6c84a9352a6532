SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"sd", "se", "ee", "ct", "cm", "pi"}
  FIELDS = {"scope"}
  ERRS = {}
INVARIANT Inv
