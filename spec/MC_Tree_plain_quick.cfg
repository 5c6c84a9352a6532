SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  MAXNODES = 5
  WITHNS = FALSE
INVARIANTS ParserInv WalkOfTree NoErrors
CHECK_DEADLOCK FALSE
