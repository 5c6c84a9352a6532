SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  ALPHA = "mixed"
  MAXTOK = 6
  EXPORT = TRUE
VIEW View
INVARIANTS Inv StreamHolds OpenAsSeen NoDeclarations NamesResolved NoRepoll
PROPERTIES NestingByDepth EndedForAReason DepthRestored ClosedByName OuterScopesFixed GivenScopeFixed InnerScopeOnly
