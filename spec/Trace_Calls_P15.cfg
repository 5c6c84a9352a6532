SPECIFICATION Spec
CONSTANT JUDGE = {"ids"}
