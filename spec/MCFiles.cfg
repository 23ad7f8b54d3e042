SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDim = 5
  Far = 8
INVARIANT Right
