SPECIFICATION Spec
CONSTANTS
  ALPHA = "escape"
  MAXLEN = 5
INVARIANTS RoundTrip Unchanged NoneLeft EveryAmpersandStartsAReference NothingToExpand Counts Fewer
CHECK_DEADLOCK FALSE
