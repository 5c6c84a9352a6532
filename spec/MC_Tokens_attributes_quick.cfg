SPECIFICATION Spec
CONSTANTS
  ALPHA = "attributes"
  MAXLEN = 5
INVARIANTS Sound Complete Tiles NotEmpty Local
CHECK_DEADLOCK FALSE
