SPECIFICATION Spec
CONSTANT LENGTH = 4
INVARIANTS Accepted OnlyThese
CHECK_DEADLOCK FALSE
