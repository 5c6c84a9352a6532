SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  ALPHA = "general"
  MAXLEN = 5
INVARIANTS Inv StreamHolds EventsBounded PullsBounded PosIsExact SpansInText ContentExact CommentExact TagExact Lasting Progress
PROPERTIES SpansInOrder Terminates
