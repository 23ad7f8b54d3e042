SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sim = FALSE
  Depth = 4
  MaxSets = 3
  Versions = {1}
VIEW View
INVARIANTS Laws Asked
PROPERTY Steady
