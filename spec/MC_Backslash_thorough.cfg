SPECIFICATION Spec
CONSTANT MAXLEN = 5
INVARIANTS Reversible Plain Compositional OnlyScalars
CHECK_DEADLOCK FALSE
