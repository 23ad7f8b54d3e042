SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sim = TRUE
  Depth = 14
  Names = {"a", "ab", "b", "Ex", "Ey"}
  Sizes = {1, 2, 3, 4}
  MaxTables = 3
INVARIANT AllOK Emit
