SPECIFICATION Spec
CONSTANT JUDGE = {"frames"}
