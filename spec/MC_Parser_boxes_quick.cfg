SPECIFICATION Spec
CONSTANTS
  VOID = VOID
  ALPHA = "boxes"
  MAXTOK = 7
  EXPORT = TRUE
VIEW View
INVARIANTS Inv StreamHolds OpenAsSeen NoDeclarations NamesResolved NoRepoll
PROPERTIES NestingByDepth EndedForAReason DepthRestored ClosedByName OuterScopesFixed GivenScopeFixed InnerScopeOnly
