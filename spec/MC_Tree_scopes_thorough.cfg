SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  MAXNODES = 4
  WITHNS = TRUE
INVARIANTS ParserInv WalkOfTree NoErrors
CHECK_DEADLOCK FALSE
