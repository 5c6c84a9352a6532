SPECIFICATION Spec
CONSTANT MAXLEN = 4
INVARIANTS Reversible Plain Compositional OnlyScalars
CHECK_DEADLOCK FALSE
