SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Q = 2
  Values = {0, 1}
  Imag = {0}
INVARIANTS BlocksRight Coherent Rejections Errors
