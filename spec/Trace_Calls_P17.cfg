SPECIFICATION Spec
CONSTANT JUDGE = {"names"}
