SPECIFICATION Spec
CONSTANTS
  VOID = VOID
INVARIANT Inv
