SPECIFICATION Spec
INVARIANTS Possible Sensitive
CHECK_DEADLOCK FALSE
