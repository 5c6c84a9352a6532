SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  MAXTOK = 5
  EXPORT = TRUE
INVARIANTS Inv Undisturbed EveryError EndedOnce
PROPERTIES AtOnce
