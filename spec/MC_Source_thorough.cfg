SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  MAXTOK = 6
  EXPORT = TRUE
INVARIANTS Inv Undisturbed EveryError EndedOnce
PROPERTIES AtOnce
