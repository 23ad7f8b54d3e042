SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStart = 4
  Pers = {1, 2}
  MaxN = 3
  MaxRuns = 2
  Arity = 2
  Mode = "merge"
INVARIANT MergeRight
