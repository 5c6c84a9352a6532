SPECIFICATION Spec
CONSTANTS
  ALPHA = "mixed"
  MAXLEN = 4
INVARIANTS Sound Complete Tiles NotEmpty Local
CHECK_DEADLOCK FALSE
