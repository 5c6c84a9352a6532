SPECIFICATION Spec
CONSTANTS
  ALPHA = "tags"
  MAXLEN = 6
INVARIANTS Sound Complete Tiles NotEmpty Local
CHECK_DEADLOCK FALSE
