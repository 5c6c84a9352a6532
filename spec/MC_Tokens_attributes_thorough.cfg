SPECIFICATION Spec
CONSTANTS
  ALPHA = "attributes"
  MAXLEN = 6
INVARIANTS Sound Complete Tiles NotEmpty Local
CHECK_DEADLOCK FALSE
