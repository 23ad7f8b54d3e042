SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sim = FALSE
  Depth = 3
  Names = {"a", "ab"}
  Sizes = {2}
  MaxTables = 2
INVARIANT AllOK Lookups
PROPERTY Isolated Refusals Removals Puts
VIEW View
