SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Q = 2
  Values = {0, 1}
  Imag = {0, 1}
  Mode = "plain"
INVARIANT Laws
