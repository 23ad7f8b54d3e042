SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ps = {1, 2, 3}
  Ms = {3, 4, 8, 12, 20}
  Js = {0, 12, 20, 30, 36, 60, 100, 120}
  Amps = {0, 1, 3}
  MaxTones = 2
  Lens = {8, 20, 60, 200}
  Tau2s = {5, 6, 8}
INVARIANTS Starts Additive Periodic Turned Separation
