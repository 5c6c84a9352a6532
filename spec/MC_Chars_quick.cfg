SPECIFICATION Spec
CONSTANTS
  LENGTH = 4
  SIGNS = {10, 32, 35, 39, 58, 59, 61, 97, 114, 123, 125}
INVARIANT Uniform
CHECK_DEADLOCK FALSE
