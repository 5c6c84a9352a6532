SPECIFICATION Spec
CONSTANTS
  ALPHA = "escape"
  MAXLEN = 4
INVARIANTS RoundTrip Unchanged NoneLeft EveryAmpersandStartsAReference NothingToExpand Counts Fewer
CHECK_DEADLOCK FALSE
