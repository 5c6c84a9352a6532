SPECIFICATION Spec
CONSTANTS
  IDS = 3
  TEXTS = 3
INVARIANTS Unique Same None Converse Findable
PROPERTY Stable
CHECK_DEADLOCK FALSE
