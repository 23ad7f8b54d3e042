SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStart = 1
  Pers = {1, 2}
  MaxN = 2
  MaxRuns = 2
  Arity = 2
  Mode = "inv"
INVARIANT InventoryRight
