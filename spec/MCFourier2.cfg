SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 90
  MaxM = 20
  MaxPer = 5
INVARIANT Windows
