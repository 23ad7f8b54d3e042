SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStart = 4
  Pers = {1, 2}
  MaxN = 3
  MaxRuns = 1
  Arity = 3
  Mode = "pack"
INVARIANT PackRight
