SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFiles = 2
  MaxRecs = 2
  MaxChans = 2
  Starts = {0, 1}
  Rates = {8}
  Announced = {1, 2}
  Bytes = {1023, 1032, 1036}
  Factors = {1, 3}
INVARIANTS Own Alone Symmetric Pairs Calibrated
