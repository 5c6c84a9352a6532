SPECIFICATION Spec
CONSTANTS
  ALPHA = "tags"
  MAXLEN = 5
INVARIANTS Sound Complete Tiles NotEmpty Local
CHECK_DEADLOCK FALSE
