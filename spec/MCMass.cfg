SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Rates = {2, 3, 8}
  Starts = {0, 1, 100}
  MaxN = 4
  MaxRuns = 2
  Bounds = {0, 1, 96, 100, 192, 300}
INVARIANTS Exactly Twice Whole Subsets
