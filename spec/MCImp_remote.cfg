SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Coefs <- CoefsDef
  Remote = TRUE
INVARIANTS Laws
