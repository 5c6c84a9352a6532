SPECIFICATION Spec
CONSTANT LENGTH = 5
INVARIANTS Accepted OnlyThese
CHECK_DEADLOCK FALSE
