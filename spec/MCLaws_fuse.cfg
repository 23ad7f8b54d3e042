SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStart = 5
  Pers = {1, 2}
  MaxN = 4
  MaxRuns = 2
  Arity = 1
  Mode = "one"
INVARIANT FuseRight
