SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Q = 1
  Values = {0, 1, 2}
  Imag = {0}
  Mode = "chain"
INVARIANT Laws
