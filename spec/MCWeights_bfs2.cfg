SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind <- KindDef
  Inner <- InnerDef
  Chains <- ChainsDef
  Data = {"d1", "d2", "d3"}
  MaxIt = 3
  MaxHist = 4
  Reset = TRUE
  Sim = FALSE
INVARIANT OwnAnswers
VIEW View
