SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDim = 9
  Far = 14
INVARIANT Right
