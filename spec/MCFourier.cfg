SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 30
  MaxM = 12
  MaxPer = 3
INVARIANT Windows
