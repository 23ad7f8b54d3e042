SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Coefs <- CoefsDef
  Remote = FALSE
INVARIANTS Laws
