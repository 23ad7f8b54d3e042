SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Coefs <- CoefsDef2
  Remote = TRUE
INVARIANTS Laws
