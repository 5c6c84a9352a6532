SPECIFICATION Spec
CONSTANTS
  ALPHA = "mixed"
  MAXLEN = 5
INVARIANTS Sound Complete Tiles NotEmpty Local
CHECK_DEADLOCK FALSE
