SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  MAXNODES = 6
  WITHNS = FALSE
INVARIANTS ParserInv WalkOfTree NoErrors
CHECK_DEADLOCK FALSE
