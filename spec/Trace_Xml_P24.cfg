SPECIFICATION Spec
CONSTANT JUDGE = "event"
