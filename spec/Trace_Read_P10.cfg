SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  KINDS = {"sd", "se", "ee", "ct", "cm", "pi"}
  FIELDS = {}
  ERRS = {"UnmappedPrefix", "EmptyName", "BadName", "ExpectedTagName", "ExpectedWhitespaceAfterTag", "UnexpectedCharacter", "UnexpectedTagIndent", "UnexpectedAttribute", "UnexpectedNewlineInQuotedString", "ExpectedEquals", "UnexpectedEOF", "IoError", "UnexpectedCloseTag", "BeyondEndOfTokens", "Other"}
INVARIANT Inv
