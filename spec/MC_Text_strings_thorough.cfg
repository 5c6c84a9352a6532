SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  ALPHA = "strings"
  MAXLEN = 7
INVARIANTS Inv StreamHolds EventsBounded PullsBounded PosIsExact SpansInText ContentExact CommentExact TagExact Lasting Progress
PROPERTIES SpansInOrder
