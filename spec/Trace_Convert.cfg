SPECIFICATION Spec
CONSTANT VOID = VOID
