SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxP = 3
  MaxW = 4
INVARIANT Right NormalOK
