SPECIFICATION Spec
INVARIANTS Possible Sensitive Mute
CHECK_DEADLOCK FALSE
