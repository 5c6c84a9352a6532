SPECIFICATION Spec
CONSTANT JUDGE = "xml"
