SPECIFICATION Spec
CONSTANTS
  IDS = 5
  TEXTS = 5
INVARIANTS Unique Same None Converse Findable
PROPERTY Stable
CHECK_DEADLOCK FALSE
