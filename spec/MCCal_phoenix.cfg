SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 0
  Freqs = {2, 4, 7}
  Moduli = {3, 5}
  Phases = {0, 90}
  MaxRows = 4
  Mode = "phoenix"
INVARIANTS PhoenixRight
