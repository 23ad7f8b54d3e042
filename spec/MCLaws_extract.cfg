SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStart = 3
  Pers = {1, 2, 3}
  MaxN = 3
  MaxRuns = 2
  Arity = 2
  Mode = "extract"
INVARIANT ExtractRight
