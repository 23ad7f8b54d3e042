SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sim = TRUE
  Depth = 24
  MaxSets = 12
  Versions = {1, 2, 3, 4, 5}
INVARIANTS Asked Emit
