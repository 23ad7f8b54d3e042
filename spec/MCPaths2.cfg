SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxP = 4
  MaxW = 5
INVARIANT Right NormalOK
