SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind <- KindDef
  Inner <- InnerDef
  Chains <- ChainsDef
  Data = {"d1", "d2"}
  MaxIt = 3
  MaxHist = 3
  Reset = TRUE
  Sim = FALSE
INVARIANT OwnAnswers
VIEW View
