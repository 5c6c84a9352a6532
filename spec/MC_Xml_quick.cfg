SPECIFICATION Spec
CONSTANT ATTRS = 1
INVARIANTS Converts Distinguishes
CHECK_DEADLOCK FALSE
