SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStart = 4
  Pers = {1, 2, 3}
  MaxN = 4
  MaxRuns = 1
  Arity = 2
  Mode = "merge"
INVARIANT MergeRight
