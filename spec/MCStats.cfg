SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Q = 1
  Values = {0, 1}
  Imag = {0, 1}
INVARIANTS BlocksRight Coherent Rejections Errors
