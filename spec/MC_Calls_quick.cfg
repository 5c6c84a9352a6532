SPECIFICATION Spec
CONSTANTS
  MAXOPS = 4
  MAXFRAMES = 3
  XMLNSP = TRUE
VIEW View
INVARIANTS VisibleIsLookup NamesMakeSense
PROPERTIES PopRestores OnlyTop
CHECK_DEADLOCK FALSE
