SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  MAXNODES = 3
  WITHNS = TRUE
INVARIANTS ParserInv WalkOfTree NoErrors
CHECK_DEADLOCK FALSE
