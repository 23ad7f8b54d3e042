SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Q = 1
  Values = {0, 1}
  Imag = {0, 1}
  Mode = "real"
INVARIANT Laws
