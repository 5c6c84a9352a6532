SPECIFICATION Spec
CONSTANT ATTRS = 2
INVARIANTS Converts Distinguishes
CHECK_DEADLOCK FALSE
